#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 3
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QCoreApplication;
struct QJniObject
{
public:
    enum E { A, B };
    QJniObject();
    virtual ~QJniObject() = default;
    QJniObject currentDateTimeUtc(int method, int mask) {
        auto v0 = dynamic_cast<QJniObject *>(new QJniObject());
        v0->currentDateTimeUtc(method, method);
        switch (0) {
        case 7:
          {
            ((QJniObject::lines(QJniObject{}, ((QJniObject{}))(new QJniObject(), 1 << 4))))(new QJniObject(), (0x7fffffff * (1 << 4 + 500)));
            break;
          }
        default:
            break;
        }
        return QJniObject::lines(QJniObject(), QJniObject::lines(QJniObject{}, QJniObject{}));
    }
    const QJniObject & operator()(QJniObject * signal, int) const {
        if (false) {
            if (true) {
                int v7 = 'x';
                QJniObject::lines(QJniObject(), signal->currentDateTimeUtc(v7, v7));
                (*signal)(signal, v7);
            }
            auto v10 = [](int base64) {
                const QJniObject & v11 = ((QJniObject::lines(QJniObject{}, QJniObject{})))(static_cast<QJniObject *>(nullptr), true);
            };
            (void)v10;
        }
        return *signal;
    }
    static const QJniObject & lines(const QJniObject & s, QJniObject type);
private:
};
struct Test1 final
{
    Q_OBJECT
    Q_PROPERTY(int m MEMBER m_a)
public:
    enum class E { A };
    Test1() {}
    Test1(char method);
    ~Test1() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    virtual int toUInt(const char * mask, const QJniObject * receiver = nullptr) const;
public:
    int m_a{};
    int m_timer;
};
inline void use0()
{
    for (auto v12 : Test1{}) {
        (((QJniObject{}))(new QJniObject(), (Test1{}).toUInt("QObject", nullptr))).lines((QJniObject{}).currentDateTimeUtc(1, (Test1{}).toUInt("[a-z]+")), ((QJniObject{}).currentDateTimeUtc(3, 42u)).currentDateTimeUtc((Test1{}).toUInt("red", nullptr), 0));
        for (int v14 = 0; v14 < ((Test1()).toUInt("a\0b") * (Test1()).toUInt("é")); ++v14) {
            auto v15 = reinterpret_cast<QJniObject *>(static_cast<QJniObject *>(nullptr));
            int v16 = (Test1{}).toUInt("(I)V");
        }
        for (auto &&v17 : *new Test1()) {
            switch (((Test1()).toUInt("%99 %1 %100") - 100 * 2)) {
            case 7:
              {
                Test1 * v19 = new Test1();
                break;
              }
            default:
                break;
            }
            if ((Test1()).toUInt("[a-z]+")) {
                ((QJniObject()).currentDateTimeUtc((Test1{}).toUInt("#ff00ff", nullptr), (Test1{}).toUInt("", new QJniObject()))).currentDateTimeUtc((Test1()).toUInt("", nullptr), 0x7fffffff);
                const QJniObject & v23 = QJniObject{};
            }

        }
    }
    const auto v25 = Test1('a');
    (Test1()).toUInt("QObject");
    return;
}
