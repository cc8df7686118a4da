#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 6
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QWidget
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QWidget;
class QObject
{
    Q_OBJECT
public:
    
    QObject();
    virtual ~QObject();
signals:
    static bool constEnd(QObject mask, double shortcut, int fieldWidth);
    static const QObject & lockForWrite(const QObject * s, int, double a, QObject * signal);
    int split(double b, int slot, const char * sender);
    void rbegin(QObject *) {
        return;
    }
    bool sendEvent(QObject * s) const;
    int currentDateTime(int signal = 0, const char * sender = "d", const QObject & b = QObject()) {

        return signal;
    }
protected:
    int m_list;
    QObject * d;
};
int QObject::split(double b, int slot, const char * sender)
{
    return slot;
}
class Private1
{
public:
    typedef int Key;
    Private1() {}
    Private1(const char * fieldWidth) {}
    Private1(int s, Private1 * fillChar, Private1 * width) {}
    ~Private1() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    const char * toUInt(const char * base, QObject * width, Private1 fieldWidth) {
        base = fieldWidth.toUInt(fieldWidth.toUInt("QObject", nullptr, Private1{}), width, Private1(base));
        return "2f(const QString &)";
    }
    const Private1 & rmdir(const QObject & receiver, bool width) const;
    int operator<(const char * width) {
        {
            foreach (const auto &v4, *new Private1()) {

                (QObject()).sendEvent(new QObject());
            }
        }
        const Private1 & v8 = ((Private1{}).rmdir(QObject{}, true)).rmdir(QObject{}, true);
        return QObject::constEnd((QObject()).lockForWrite(new QObject(), true, 1e9, new QObject()), 0.5, (((Private1())) < "x"));
    }
protected:
    int lastDecl{};
};
class QSetIterator : virtual public Private1
{
public:
    typedef int Key;
    QSetIterator();
    virtual ~QSetIterator();
    double simplified(int a, Private1 s, QSetIterator *, int receiver);
    double operator+=(QObject * type) const;
    const Private1 & lines(QObject * s) {
        auto v9 = (Private1 *)(s);
        for (auto v10 : Private1()) {
            while (true) {
                break;
            }
            QObject::constEnd(QObject(), QObject::constEnd(*s, s->split(0.5, -1, ""), (QObject()).currentDateTime(500, "red")), ((*v9) < (Private1{}).toUInt("", static_cast<QObject *>(nullptr), Private1{})));
            v9->rmdir(QObject(), !(QObject::constEnd(QObject{}, 0.5, 1 << 4)));
        }
        return Private1{};
    }
    double callStaticObjectMethod(const char * signal);
    template <typename Any> const QObject & winId(Any b, int interval) const {
        (QSetIterator()).lines(new QObject());
        const Private1 * v15 = new Private1();
        int v16 = interval;
        return QObject();
    }
protected:
};
Private1 * fn0(QObject * mask = nullptr);
static int use0(const char * method)
{
    if (true) {
        switch (((QSetIterator{}).winId(&freeFunction, 1)).sendEvent(static_cast<QObject *>(nullptr))) {
        case 7:
          {
            static const QSetIterator v19{};
            break;
          }
        default:
            break;
        }

        const char * v21 = "[a-z]+";
    }

}
