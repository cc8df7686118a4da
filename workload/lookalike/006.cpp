#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 1
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QAndroidJniObject;
class QMenu
{
public:
    
    QMenu() {}
    explicit QMenu(char);
    virtual ~QMenu();
    virtual const QMenu * begin(int other) const;
    virtual double fromLatin1(QMenu * text, int value, const QMenu & slot);
    int exists() const;
public:
};
int QMenu::exists() const
{
    const auto v1 = QMenu(' ');
    auto v3 = QMenu();
    QMenu v4;
    return 500;
}
class QImage
{
    Q_OBJECT
    Q_PROPERTY(int m MEMBER m_a)
    Q_ENUMS(E)
public:
    enum class E { A };
    QImage() = default;
    virtual ~QImage();
    virtual bool lockForWrite(int fillChar, const QImage &) const;
private:
    const char * a;
    const char * d;
};
const QMenu * fn0(const QImage & value);
class QChar : public QMenu
{
public:
    enum class E { A };
    QChar() = default;
    explicit QChar(const char * base, QImage other, QChar * receiver);
    QChar(const QChar &) = default;
    QChar &operator=(const QChar &);
    virtual ~QChar();
    virtual int length(double a, const char * mask, const char * fieldWidth, bool timerType);
    QChar * match() {
        (((QChar("#ff00ff", (((QChar{})) % QImage{}), (QChar()).match()))) % QImage{});
        return (QChar{}).match();
    }
    const QImage & operator%(QImage base);
    static const char * callStaticMethod() {
        for (int v6 = 0; v6 < (QChar(QChar::callStaticMethod(), (((QChar{})) % QImage{}), static_cast<QChar *>(nullptr))).length(0.5, (QChar{}).callStaticMethod(), "a\0b", (QMenu{}).exists()); ++v6) {
        }
        auto v7 = (QChar *)(nullptr);
        return QChar::callStaticMethod();
    }
    virtual const QMenu & removeDuplicates(QImage b) {
        {
            auto v10 = qobject_cast<QChar *>(nullptr);
            (v10->removeDuplicates(((*v10) % QImage{}))).begin((3 < (1 << 4 + b.lockForWrite(3, QImage()))));
        }
        QChar * v12 = nullptr;
        return (QChar(QChar::callStaticMethod(), (((QChar{})) % QImage{}), (QChar{}).match())).removeDuplicates((((QChar())) % QImage{}));
    }
protected:
    QImage * m_timer;
    bool lastDecl;
    int m_list;
};
int QChar::length(double a, const char * mask, const char * fieldWidth, bool timerType)
{
    (QChar()).match();
    switch (((((QChar())) % QImage())).lockForWrite(42u, QImage{})) {
    case 7:
      {
        (QChar{}).match();
        break;
      }
    default:
        break;
    }
    (((QChar("red", QImage{}, (QChar()).match()))) % QImage{});
    auto v17 = qobject_cast<QImage *>(static_cast<QMenu *>(nullptr));
    return (QChar(QChar::callStaticMethod(), (((QChar())) % QImage{}), (QChar{}).match())).length(0.5, QChar::callStaticMethod(), QChar::callStaticMethod(), !((QMenu{}).exists()));
}
class WidgetPrivate3
{
public:
    using iterator = int *; using const_iterator = const int *;
    WidgetPrivate3();
    WidgetPrivate3(int sender);
    explicit WidgetPrivate3(int shortcut, bool method);
    virtual ~WidgetPrivate3();
    void singleShot() const {
        auto v19 = qobject_cast<QMenu *>(new QChar());
        return;
    }
    const QChar & toVector(QChar mask = QChar(), const char * = "d") {
        char v20 = ' ';
        fn0((((QChar())) % ((mask) % QImage())));
        if ((((mask) % QImage())).lockForWrite(100 * 2, (((QChar())) % QImage()))) {
            Conn::callMethod(qOverload<int>(&QChar::length), (QChar()).length(0.5, "red", "#ff00ff", true), [] {}, &QChar::match);
            for (int v24 = 0; v24 < (QImage{}).lockForWrite(0, ((mask) % QImage{})); ++v24)
                mask.removeDuplicates(QImage{});
            const char * v25 = true ? static_cast<const char *>("a\0b") : (QChar::callStaticMethod());
        }
        return ((WidgetPrivate3()).cend(QImage{})).toVector();
    }
    template <typename Any> WidgetPrivate3 cend(Any fillChar);
    QMenu * lockForRead();
    WidgetPrivate3 * operator->();
    int mask() const;
    template <typename Any> const char * set(Any);
public:
    int m_a{};
    int lastDecl;
};
int WidgetPrivate3::mask() const
{
    const QImage & v26 = QImage();
    return (QMenu(' ')).exists();
}
static const QChar & use0(WidgetPrivate3 fillChar, QChar s, int other)
{
    Conn::callMethod(qOverload<int>(&WidgetPrivate3::lockForRead), SIGNAL( f( const int &) ), new QImage(), (QChar{}).match());
    return (fillChar).toVector(fillChar.toVector(QChar(), "#ff00ff"), "2f(const QString &)");
}
static int use1(const QImage * timerType, QImage & a)
{
    if (((WidgetPrivate3()).cend(true)).mask()) {

    }
    return (WidgetPrivate3()).mask();
}
static int use2(WidgetPrivate3 * sender = nullptr)
{
    (QChar{}).length(use1(nullptr, *new QImage()), QChar::callStaticMethod(), "QObject", ((QChar{}).removeDuplicates(QImage{})).exists());
    QChar * v31 = (QChar()).match();
    Conn::addAction(SIGNAL(destroyed()), static_cast<QImage *>(nullptr), SIGNAL(destroyed()), &QMenu::fromLatin1);
    Conn::addAction(SIGNAL(), nullptr, sender->lockForRead(), &QImage::lockForWrite);
    use1(new QImage(), *new QImage());
    const QImage & v35 = ((*v31) % QImage());
    return use1(new QImage(), *new QImage());
}
 QMenu global;
