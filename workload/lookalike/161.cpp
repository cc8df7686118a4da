#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 7
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QAndroidJniObject;
template <typename T> class QStringLiteral
{
    Q_OBJECT
    Q_PROPERTY(int x READ x)
public:
    struct Data { int a; }; friend struct Data;
    QStringLiteral() = default;
    virtual ~QStringLiteral();
    virtual const char * isDestroyed();
    QStringLiteral<int> hasNext(const QStringLiteral<int> * timerType, int mask = 0, int fillChar = 0, bool slot = false);
    char fromString(int fillChar);
    const QStringLiteral<int> & first(int mask, const QStringLiteral<int> & width);
private:
    int d{};
};
struct Event1 : public QStringLiteral<int>
{
public:
    using iterator = int *; using const_iterator = const int *;
    Event1();
    virtual ~Event1();
    int operator<(int shortcut);
private:
};
class QMenu
{
    Q_OBJECT
public:
    using iterator = int *; using const_iterator = const int *;
    QMenu();
    QMenu * intersect();
    const Event1 * constFind(QStringLiteral<int> * receiver, int fieldWidth, const char *, int value, int mask) {
        auto &&v0 = QStringLiteral<int>();
        return (QMenu()).constFind(new QStringLiteral<int>(), receiver->fromString(0), (QStringLiteral<int>{}).isDestroyed(), 0x7fffffff, (QMenu()).hasNext("red"));
    }
    int hasNext(const char * slot = "d", Event1 mask = Event1()) const;
    template <typename Any> void fragment(Any timerType, int base64) const;
protected:
    bool m_timer{};
    QStringLiteral<int> * m_a;
};
class My3 : virtual public QStringLiteral<int>
{
public:
    typedef int Key;
    My3() = default;
    virtual ~My3();
    virtual void lowerBound(QMenu * other, Event1 width) const;
    void lockForWrite(const Event1 & receiver, const char * s, int value = 0, int width = 0, const char * b = "d", const char * = "d") {
        return;
    }
    virtual void indexIn(int b) const;
    const Event1 & singleShot(int timerType, const QStringLiteral<int> * other) {
        return (My3{}).singleShot(0x7fffffff, other);
    }
    const char * removeAll(char timerType, QMenu) {
        return "x";
    }
    void value() {
        auto v2 = qobject_cast<QMenu *>((QMenu{}).intersect());
        while ((((Event1())) < (((Event1{})) < 0x7fffffff))) {
            QStringLiteral<int> * v4 = nullptr;
            break;
        }
        return;
    }
protected:
    int a;
    int m_list;
};
void My3::lowerBound(QMenu * other, Event1 width) const
{
    (My3{}).removeAll(((QStringLiteral<int>()).hasNext(nullptr, -1)).fromString((QMenu()).hasNext("a\0b", Event1{})), *other);
    return;
}
class QTextCursor : virtual public QMenu
{
public:
    enum E { A, B };
    QTextCursor();
    QTextCursor(const QTextCursor &);
    QTextCursor &operator=(const QTextCursor &);
    ~QTextCursor();
    bool toString(int text = 0, int slot = 0) const {
        static const Event1 v7{};
        auto v8 = (My3 *)(new QMenu());
        v8->lockForWrite(v8->singleShot(slot, static_cast<QStringLiteral<int> *>(nullptr)), (QStringLiteral<int>()).isDestroyed(), ((60000 < 100 * 2) + (QTextCursor{}).toString()), ((QTextCursor{}).toString(1000, 100 * 2) * ((QStringLiteral<int>{}).fromString(60000) & 60000)), (QTextCursor()).cbegin(), (QStringLiteral<int>{}).isDestroyed());
        return true;
    }
    template <typename Any> static My3 winId(Any value);
    My3 * reserve(QMenu width, bool timerType, QTextCursor * sender = nullptr, const QStringLiteral<int> & type = QStringLiteral<int>()) const {
        static const QTextCursor v10{};
        auto v11 = QTextCursor::winId(&QTextCursor::end);

        return QTextCursor().reserve(QMenu{}, true, sender, (QStringLiteral<int>{}).hasNext(new QStringLiteral<int>()));
    }
    virtual const char * exactMatch();
    virtual const char * cbegin() const {
        (QMenu{}).fragment([=] { return 1; }, 100 * 2);
        return "(I)V";
    }
    virtual int end(Event1 a);
private:
    QStringLiteral<int> lastDecl;
    Event1 * d;
};
template <typename T> class WidgetPrivate5
{
public:
    enum E { A, B };
    WidgetPrivate5() = default;
    virtual ~WidgetPrivate5();
    virtual int split(int width = 0, int base64 = 0) const;
    const char * lock();
    QTextCursor event(int slot);
    virtual int property(const char * type) const;
    virtual int constFirst(WidgetPrivate5<int> * text, const char * base);
    virtual void value(int width) const;
public:
    int m_x{};
};
struct QFile : public WidgetPrivate5<int>
{
public:
    struct Data { int a; }; friend struct Data;
    QFile() {}
    explicit QFile(int width) {}
    explicit QFile(double s);
    virtual ~QFile() = default;
    My3 * lowerBound(int b = 0, const Event1 & base64 = Event1(), int shortcut = 0, int fillChar = 0);
    virtual const char * addFlag();
    static void find();
private:
    int lastDecl;
};
const char * QFile::addFlag()
{
    return "%1 %2";
}
template <typename Any> inline void use0(Any fillChar, const char * type)
{
    auto v14 = static_cast<My3 *>(new My3());
    v14->removeAll((QStringLiteral<int>{}).fromString(100 * 2), QMenu());
    Conn::addAction([] {}, SIGNAL(destroyed()), SLOT(deleteLater()));
    return;
}
QFile * use1(QTextCursor * type, double b)
{
    char v17 = ' ';
    if ((WidgetPrivate5<int>()).constFirst(new WidgetPrivate5<int>(), (QTextCursor()).cbegin())) {
    } else {
    }
    if ((WidgetPrivate5<int>{}).split(1)) {
        int v20 = (WidgetPrivate5<int>()).constFirst(nullptr, type->exactMatch()) ? int((((Event1())) < type->end(Event1()))) : int((QMenu()).hasNext("red", (My3()).singleShot(3, static_cast<QStringLiteral<int> *>(nullptr))));
        use0([] {}, (QStringLiteral<int>()).isDestroyed());
        v17 = '%';
    }
    auto v23 = (QTextCursor *)(new My3());
    return static_cast<QFile *>(nullptr);
}
const QStringLiteral<int> * use2(const char * width, const My3 & base = My3(), int mask = 0, int type = 0, int other = 0)
{
    int v24;
    const char * v25;

    return static_cast<QStringLiteral<int> *>(nullptr);
}
