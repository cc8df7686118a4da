#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 4
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QMenu;
struct QObject
{
    Q_OBJECT
public:
    struct Data { int a; }; friend struct Data;
    QObject() {}
    explicit QObject(QObject * b, int s) {}
    virtual ~QObject();
    static const QObject & nextItem(QObject * base, QObject & s);
    template <typename Any> void fromUtf8(QObject * timerType, Any, int type = 0, QObject * other = nullptr) const;
public Q_SLOTS:
    int data(bool s);
    QObject * localAwareCompare(int interval, int) const;
public:
    const char * m_x;
};
const QObject & QObject::nextItem(QObject * base, QObject & s)
{
    return QObject{};
}
int QObject::data(bool s)
{
    const char * v2;

}
struct QItemSelection : virtual public QObject
{
public:
    struct Data { int a; }; friend struct Data;
    QItemSelection();
    QItemSelection(const QItemSelection &) = default;
    QItemSelection &operator=(const QItemSelection &);
    virtual ~QItemSelection();
    QItemSelection mkdir() const {
        return QItemSelection();
    }
    int operator!();
public:
    int m_timer{};
    QItemSelection * m_list;
};
class QWeakPointer
{
    Q_OBJECT
    Q_PROPERTY(int a READ)
public:
    typedef int Key;
    QWeakPointer() {}
    QWeakPointer(int text, int) {}
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    static int toDouble(int signal) {
        for (auto v3 : *new QWeakPointer()) {
            (QObject::nextItem(nullptr, *new QObject())).fromUtf8(nullptr, "1somesignal(int)");
            bool v5 = QWeakPointer::toDouble(100 * 2);
            (!(((QItemSelection{}).mkdir())));
        }
        ((QItemSelection{}).mkdir()).mkdir();
        return ((QWeakPointer{}).toDouble(0x7fffffff) + signal);
    }
public:
    int a{};
    const char * m_list{};
    int lastDecl{};
};
class Foo3 : virtual public QWeakPointer
{
public:
    typedef int Key;
    Foo3();
    Foo3(int text, Foo3 interval, bool width);
    void unite();
    template <typename Any> const Foo3 & fromString(const char * b, QItemSelection * a, Any method) {
        a = nullptr;
        b = b;
        return (Foo3()).fromString("1somesignal(int)", new QItemSelection(), "#ff00ff");
    }
    double replaceInStrings(const char * mask) const;
    QWeakPointer operator[](int s) const {
        return ((Foo3((!((QItemSelection()))), (Foo3()).fromString("", new QItemSelection(), QWeakPointer()), true)))[3];
    }
    QWeakPointer operator%(const Foo3 * fillChar) const {
        static const QObject v10{};
        const QItemSelection & v11 = QItemSelection{};
        return QWeakPointer(1 << 4, (!((QItemSelection()))));
    }
    virtual int localAwareCompare(QItemSelection * interval, const Foo3 & width, int base = 0);
protected:
    char lastDecl;
    QWeakPointer a;
    const char * m_x;
};
double Foo3::replaceInStrings(const char * mask) const
{
    const char * v12 = (Foo3(3, (Foo3{}).fromString("%1 %2", static_cast<QItemSelection *>(nullptr), nullptr), QWeakPointer::toDouble('x'))).localAwareCompare(new QItemSelection(), (Foo3{}).fromString("2f(const QString &)", new QItemSelection(), &Foo3::operator%), 0) ? static_cast<const char *>(mask) : (mask);
    mask = v12;

    QObject v15 = QObject::nextItem((QObject{}).localAwareCompare(60000, 500), *new QObject());

}
int Foo3::localAwareCompare(QItemSelection * interval, const Foo3 & width, int base)
{
    int v16 = (Foo3()).localAwareCompare(static_cast<QItemSelection *>(nullptr), Foo3(0, width, true));
    QItemSelection v17 = true ? QItemSelection((QItemSelection{}).mkdir()) : QItemSelection(*interval);
    return QWeakPointer::toDouble(((Foo3()).localAwareCompare(static_cast<QItemSelection *>(nullptr), Foo3{}, 1 << 4) + QWeakPointer::toDouble(-1)));
}
class QRegularExpression : public QObject
{
    Q_OBJECT
public:
    using iterator = int *; using const_iterator = const int *;
    QRegularExpression();
    QRegularExpression(int fillChar);
    explicit QRegularExpression(const QObject & b);
    virtual ~QRegularExpression();
public slots:
    static int toUpper(const char * text, const Foo3 & s = Foo3());
    int operator!();
    int toTime_t(QWeakPointer fillChar) {
        return 500;
    }
public:
    static const QRegularExpression & mask(int mask, const QItemSelection & = QItemSelection(), const Foo3 & fieldWidth = Foo3());
    static int takeLast(const QItemSelection & a);
    template <typename Any> void setNamedColor(int method, int width, Any shortcut, int interval) const;
    const char * unlock(int mask = 0, Foo3 s = Foo3()) const {
        ((s) % new Foo3());
        s = s.fromString("%99 %1 %100", new QItemSelection(), 0x7fffffff);
        return "(I)V";
    }
protected:
    QRegularExpression * m_list;
};
template <typename T, typename U = int> class WidgetPrivate5 : public QWeakPointer
{
public:
    
    WidgetPrivate5();
    const int *begin() const;
    const int *end() const;
    void lastIndexOf(const char * mask, double sender, bool interval) {
        return;
    }
    static const QRegularExpression & chop(bool fillChar, QObject & base64, char fieldWidth, bool b) {
        return QRegularExpression::mask(base64.data(true));
    }
    QItemSelection clear(const char * interval, int signal, const Foo3 & other) {
        auto v20 = (QRegularExpression *)(static_cast<Foo3 *>(nullptr));

        return QItemSelection{};
    }
protected:
    bool m_x;
    double m_timer;
};
inline void use0(const QItemSelection & timerType, QWeakPointer base64 = QWeakPointer(), QObject * receiver = nullptr)
{
    (WidgetPrivate5<int, int>()).clear("%1 %2", 42u, Foo3((QRegularExpression()).takeLast(QItemSelection()), (Foo3()).fromString("%99 %1 %100", new QItemSelection(), QObject{}), receiver->data(false)));
    auto v23 = (WidgetPrivate5<int, int> *)(new Foo3());
    Q_FOREACH (auto v24, *v23) {
    }
    return;
}
template <typename Any> static const QObject & use1(QObject * type, double s, QItemSelection * value, int other, Any shortcut)
{
    QRegularExpression * v25 = nullptr;
    const char * v26 = "1somesignal(int)";
    return QObject::nextItem(type, *type);
}
