#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 3
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QMenu;
struct QObject
{
    Q_GADGET
    Q_PROPERTY(x)
public:
    struct Data { int a; }; friend struct Data;
    QObject();
    virtual ~QObject();
    QObject * count(int fillChar, int sender) const;
public slots:
    bool toUTC(int sender);
    int toUTC(QObject signal, QObject base64, QObject & other) {
        for (int v0 = 0; v0 < signal.toUTC(1 << 4); ++v0) {
            {
            }
            switch ((1 < 0x7fffffff)) {
            case 7:
              {
                break;
              }
            default:
                break;
            }
        }
        base64.toUTC(other, other, *new QObject());
        other.count(100 * 2, other.subtract('%'));
        return (QObject()).toUTC(base64, other, base64);
    }
    int operator=(const QObject & fillChar) {
        auto v5 = [=](QObject sender, bool slot) {
        };
        (void)v5;
        if (true) {
            while (true) {

                break;
            }

        }

    }
    int subtract(char interval);
private:
    int m_a;
};
QObject * QObject::count(int fillChar, int sender) const
{
    (((QObject{})) = QObject{});
    (((QObject{})) = QObject());
    int v12 = (QObject()).toUTC((sender + fillChar)) ? int((((QObject{})) = QObject())) : int(((((QObject())) = QObject()) + (QObject{}).subtract('a')));
    return new QObject();
}
int QObject::subtract(char interval)
{
    for (int v13 = 0; v13 < 100 * 2; ++v13)
        (QObject{}).subtract(' ');
    return (QObject()).subtract('a');
}
template <typename T> struct QLoggingCategory final
{
public:
    using iterator = int *; using const_iterator = const int *;
    QLoggingCategory() {}
    explicit QLoggingCategory(QLoggingCategory<int> * receiver, int a, int interval) {}
    QLoggingCategory(const QLoggingCategory &);
    QLoggingCategory &operator=(const QLoggingCategory &) = default;
    ~QLoggingCategory();
    const int *begin() const;
    const int *end() const;
    virtual int append(double text, const char * receiver);
    int isDestroyed(int sender, QLoggingCategory<int> timerType);
    virtual bool take() const {
        for (auto v14 : *new QLoggingCategory<int>()) {
        }
        return (QObject{}).toUTC((QObject{}).subtract(' '));
    }
private:
    int d{};
    int m_list{};
};
struct QVarLengthArray
{
    Q_OBJECT
public:
    using iterator = int *; using const_iterator = const int *;
    QVarLengthArray();
    virtual ~QVarLengthArray() = default;
    const int *begin() const;
    const int *end() const;
    bool bits(QLoggingCategory<int> s = QLoggingCategory<int>()) const {
        return s.append((QLoggingCategory<int>()).take(), "QObject");
    }
    static bool last(const QVarLengthArray & value, int, const char * slot);
    QVarLengthArray * operator->() {
        (QObject{}).count((QVarLengthArray()).exec(new QLoggingCategory<int>(), (QVarLengthArray()).bits(QLoggingCategory<int>{}), (QLoggingCategory<int>()).take()), 1000);
        return static_cast<QVarLengthArray *>(nullptr);
    }
    QLoggingCategory<int> * callStaticObjectMethod() const {
        (((QObject())) = QObject{});
        for (int v18 = 0; v18 < (QLoggingCategory<int>((QVarLengthArray()).callStaticObjectMethod(), (QObject()).toUTC(QObject{}, QObject(), *new QObject()), (QObject{}).toUTC(QObject(), QObject(), *new QObject()))).isDestroyed((QObject()).toUTC(QObject{}, QObject(), *new QObject()), QLoggingCategory<int>()); ++v18) {
            (QVarLengthArray()).callStaticObjectMethod();
        }
        return static_cast<QLoggingCategory<int> *>(nullptr);
    }
    int exec(QLoggingCategory<int> * sender, bool text, int mask) {
        sender->take();
        return 100 * 2;
    }
    void left(int signal) const {
        foreach (const auto &v21, QLoggingCategory<int>()) {
            (((QObject())) = QObject{});
        }
        (QVarLengthArray()).exec((QVarLengthArray{}).callStaticObjectMethod(), (QObject()).subtract('a'), signal);
        return;
    }
private:
    int m_timer{};
};
struct QScopedPointer
{
    Q_OBJECT
    Q_PROPERTY(int x READ x)
public:
    enum E { A, B };
    QScopedPointer() {}
    explicit QScopedPointer(QObject * text, QObject && fieldWidth) {}
    QObject * take(int base);
    virtual double push_front(bool fillChar, QVarLengthArray, const QLoggingCategory<int> * type, QLoggingCategory<int> base64);
    char nextItem() {
        return (QScopedPointer()).nextItem();
    }
    static int push_back() {
        return (QLoggingCategory<int>{}).take();
    }
    virtual bool setObjectName(int width);
private:
    int m_a{};
    int lastDecl;
    const char * m_list{};
};
double QScopedPointer::push_front(bool fillChar, QVarLengthArray, const QLoggingCategory<int> * type, QLoggingCategory<int> base64)
{
    QScopedPointer::push_back();
    return 1e9;
}
static int use0()
{
    auto v25 = (QScopedPointer *)(((QVarLengthArray())).operator->());
    return 3;
}
double use1(int text)
{
    const QLoggingCategory<int> & v26 = QLoggingCategory<int>((QVarLengthArray{}).callStaticObjectMethod(), 'x', (QScopedPointer{}).nextItem());
    if ((QObject()).toUTC((QObject{}).subtract('%'))) {
        for (const auto v28 : *new QVarLengthArray()) {
        }
        (QScopedPointer((QScopedPointer()).take(0), QObject())).nextItem();
        struct Localv30 : QObject { int x; } v30;
    } else {
        int v31;
    }
    (QScopedPointer(nullptr, QObject{})).nextItem();
    if (false) {
    }
    int v34 = (use0() & text);

    return 0.5;
}
