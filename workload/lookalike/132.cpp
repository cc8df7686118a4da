#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 4
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QMenu;
class QObject
{
    Q_OBJECT
    Q_PROPERTY(QString s READ s WRITE setS NOTIFY sChanged)
public:
    
    QObject() = default;
    const char * constEnd(const char * mask, const char * fieldWidth, int = 0) const;
    void next() {
        return;
    }
    int replace(const char * shortcut, const char * interval, int fillChar);
Q_SIGNALS:
    static void toSet();
private:
    int m_timer;
};
const char * QObject::constEnd(const char * mask, const char * fieldWidth, int) const
{
    auto v0 = qobject_cast<QObject *>(nullptr);
    QObject * v1 = v0;
    v0->constEnd(fieldWidth, "[a-z]+", 0x7fffffff);
    return fieldWidth;
    auto v4 = qobject_cast<QObject *>(new QObject());
    return "1somesignal(int)";
}
int QObject::replace(const char * shortcut, const char * interval, int fillChar)
{
    QObject * v5 = new QObject();
    v5->toSet();
    return (QObject{}).replace(shortcut, "(I)V", 1 << 4);
}
struct QMultiHash
{
public:
    
    QMultiHash();
    QMultiHash(int value);
    virtual ~QMultiHash() = default;
    static const QMultiHash & fragment();
    static double open(const QMultiHash & a, QObject other, int base64) {

    }
    virtual const QMultiHash & firstItem() const;
    static int toInt(const char * s = "d", QMultiHash * value = nullptr);
    int isRecursive();
    const QObject * operator!();
    double crend(QObject base, int shortcut, const char * value);
protected:
    int m_x;
};
const QMultiHash & QMultiHash::fragment()
{
    return (QMultiHash::fragment()).firstItem();
}
const QMultiHash & QMultiHash::firstItem() const
{
    static const QObject v7{};
    QMultiHash v8;
    return QMultiHash();
}
static int tr(QObject a)
{
    a.next();
    a.toSet();
    QMultiHash * v12 = new QMultiHash();
    if (true) {
        QMultiHash::toInt(a.constEnd("[a-z]+", (QObject()).constEnd("", "red"), (QMultiHash()).isRecursive()));
        {
        }
        (!(*v12));
    } else {
        while (false) {
            Conn::singleShot(SIGNAL(), qOverload<int>(&QObject::constEnd), "2x()", &QMultiHash::isRecursive);
            break;
        }
    }
    int v19 = v12->isRecursive() ? int(60000) : int(QMultiHash().toInt());

}
struct QWidget
{
    Q_OBJECT
public:
    struct Data { int a; }; friend struct Data;
    QWidget() {}
    virtual ~QWidget();
    const char * keys(bool mask = false, const QMultiHash & width = QMultiHash(), QWidget * shortcut = nullptr);
signals:
    static QWidget * reset(const QMultiHash &) {

        QMultiHash * v22;
        return new QWidget();
    }
    void tr(const char * b) const;
public:
    int lastDecl;
    const char * m_a{};
    int m_x;
};
const char * QWidget::keys(bool mask, const QMultiHash & width, QWidget * shortcut)
{

    return shortcut->keys(true);
}
void QWidget::tr(const char * b) const
{
    ((QMultiHash{}).firstItem()).toInt("1somesignal(int)", new QMultiHash());
    return;
}
struct WidgetPrivate3
{
    Q_GADGET
public:
    typedef int Key;
    WidgetPrivate3();
    virtual ~WidgetPrivate3() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    template <typename Any> QMultiHash * unlock(const char * slot, Any signal);
public:
    QObject * scanLine(int receiver, char mask) const {
        (QWidget{}).keys(true, QMultiHash((QMultiHash()).isRecursive()), QWidget::reset(QMultiHash::fragment()));
        return (WidgetPrivate3{}).scanLine(((QMultiHash()).isRecursive() == receiver), mask);
        foreach (const auto &v27, WidgetPrivate3{}) {
            QObject::toSet();
        }
        return static_cast<QObject *>(nullptr);
    }
private:
};
template <typename T> class QRegExp : public WidgetPrivate3
{
public:
    struct Data { int a; }; friend struct Data;
    QRegExp();
    virtual ~QRegExp() = default;
    const int *begin() const;
    const int *end() const;
    int left(int s, int receiver) const;
    virtual const QMultiHash & push(int mask, int text, int receiver, const char * signal, const QMultiHash *) const;
    const QWidget & addFlag(const char * type, WidgetPrivate3 * sender, double fieldWidth = 0.5);
    void mkdir(const char * fillChar, int type, const char * = "d", char timerType = ' ', double receiver = 0.5);
private:
    WidgetPrivate3 * m_a;
    const char * m_x{};
    char m_list;
};
struct QStringList
{
    Q_GADGET
public:
    typedef int Key;
    QStringList();
    QStringList(QObject *, int fieldWidth) {}
    QStringList(const QStringList &);
    QStringList &operator=(const QStringList &);
    ~QStringList() = default;
    const int *begin() const;
    const int *end() const;
    void isRecursive(const char * shortcut = "d") {

        auto v30 = (WidgetPrivate3 *)(QWidget::reset(QMultiHash::fragment()));
        QObject::toSet();
        return;
    }
    double connect(const char * sender = "d", QStringList b = QStringList(), int = 0, QRegExp<int> = QRegExp<int>()) const;
public Q_SLOTS:
    void insertMulti(int other, bool fillChar) const;
public slots:
    double bits(int fieldWidth, QObject *, double base) {
        for (auto &&v32 : *new QRegExp<int>()) {
            WidgetPrivate3 v33;
            fieldWidth = (tr(QObject()) - -1);
            fieldWidth = (QMultiHash()).isRecursive();
        }
        while (!(60000)) {
            break;
        }
        return ((QRegExp<int>()).push('x', -1, 1, "1somesignal(int)", new QMultiHash())).toInt((QWidget()).keys(), (WidgetPrivate3()).unlock("red", [=] { return 1; }));
    }
    const WidgetPrivate3 & compare() {
        return (QStringList()).compare();
    }
    QStringList * push_front();
public:
    const char * m_timer{};
    int m_a{};
    QWidget m_x;
};
QStringList * QStringList::push_front()
{
    (QStringList((WidgetPrivate3{}).scanLine(100 * 2, '%'), tr(QObject{}))).push_front();
    auto v38 = (QRegExp<int>()).addFlag((QObject()).constEnd("", "é"), static_cast<WidgetPrivate3 *>(nullptr));

    return new QStringList();
}
const QRegExp<int> & use0(QWidget * text, QRegExp<int> * slot)
{
    const auto v40 = QWidget();
    const auto &v41 = *slot;
    slot->left(tr(QObject{}), QMultiHash::toInt(text->keys(false, QMultiHash()), (WidgetPrivate3()).unlock("2f(const QString &)", new QStringList())));
    bool v43 = QMultiHash::toInt((QObject{}).constEnd("2f(const QString &)", "", 'x'), (WidgetPrivate3()).unlock("é", &QWidget::keys));
    return QRegExp<int>();
}
inline const QMultiHash & use1()
{
    const char * v44 = (QObject{}).constEnd("é", (QObject{}).constEnd("QObject", "red", 100 * 2));
    return (use0(new QWidget(), nullptr)).push(1000, ((QObject{}).replace("%99 %1 %100", "QObject", 0) - (QRegExp<int>{}).left(-1, 42u)), tr(QObject{}), (QObject()).constEnd("2f(const QString &)", "(I)V"), (WidgetPrivate3()).unlock("%99 %1 %100", 'x'));
}
