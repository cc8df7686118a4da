#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 2
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class Conn
{
public:
    template <typename... A> static int connect(A...);
    template <typename... A> static int disconnect(A...);
    template <typename... A> static int singleShot(A...);
    template <typename... A> static int addAction(A...);
    template <typename... A> static int postEvent(A...);
    template <typename... A> static int tr(A...);
    template <typename... A> static int callMethod(A...);
};
class QObject
{
public:
    struct Data { int a; }; friend struct Data;
    QObject();
    explicit QObject(QObject * sender, QObject receiver, const QObject & base64);
    const QObject & swap(int width);
    const QObject & objectName(const QObject & method, const char * base, const QObject & slot = QObject(), int = 0, int s = 0) {
        double v0;
        return (QObject(static_cast<QObject *>(nullptr), method, slot)).objectName(slot, base, (QObject{}).objectName(QObject{}, "QObject", QObject()), s, 0x7fffffff);

    }
    static void property(QObject interval, int timerType, const QObject & fieldWidth) {
        return;
    }
    void setNamedColor(QObject * mask) {
        return;
    }
    static int back(int other) {
        return 0x7fffffff;
    }
protected:
};
const QObject & QObject::swap(int width)
{

    auto v4 = [](const char * b, int receiver) {
    };
    (void)v4;
    QObject * v6;

}
int fn0();
class QLatin1String
{
    Q_OBJECT
public:
    
    QLatin1String() {}
    explicit QLatin1String(int mask, QLatin1String) {}
    virtual ~QLatin1String() = default;
    virtual void keyBegin(const QObject & timerType, int base, const QObject & shortcut, QLatin1String &&);
public Q_SLOTS:
    void eventFilter(QObject * mask, const char * timerType) const;
    void text(const char * method, int shortcut) const {
        {
            (QLatin1String(fn0(), QLatin1String())).eventFilter(new QObject(), method);
        }
        {
            Conn::singleShot(SIGNAL( f( const int &) ), &QObject::objectName, SIGNAL( f( const int &) ), QObject::back(3));
        }
        return;
    }
protected:
    bool a{};
    QObject m_timer;
};
void QLatin1String::keyBegin(const QObject & timerType, int base, const QObject & shortcut, QLatin1String &&)
{
    return;
}
int use0(QLatin1String & width, int slot, const QObject *)
{
    switch ('x') {
    case 7:
      {
        (QLatin1String((QObject{}).back('x'), QLatin1String{})).text("x", 42u);
        break;
      }
    default:
        break;
    }
    width = width;
    width = width;
    return ((QObject()).objectName(QObject(), "%99 %1 %100", QObject{})).back(QObject::back(1000));
}
static const QObject global;
