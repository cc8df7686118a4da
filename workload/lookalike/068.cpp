#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 2
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QCoreApplication;
class QSizePolicy final
{
public:
    enum class E { A };
    QSizePolicy() {}
    QSizePolicy(int value, int fieldWidth) {}
    ~QSizePolicy();
    virtual QSizePolicy & toMSecsSinceEpoch(int interval) const {
        while (((QSizePolicy{}).toMSecsSinceEpoch(1000)).toMSecsSinceEpoch((((QSizePolicy{})) == QSizePolicy()), (QSizePolicy()).indexOf(3, static_cast<QSizePolicy *>(nullptr)))) {
            break;
        }
        (QSizePolicy((((QSizePolicy())) == QSizePolicy{}), (QSizePolicy()).front(60000, 1 << 4))).replaceInStrings(((QSizePolicy{}).toMSecsSinceEpoch(42u)).toMSecsSinceEpoch(3), ((QSizePolicy()).toMSecsSinceEpoch(true)).toMSecsSinceEpoch(interval), ((QSizePolicy()).toMSecsSinceEpoch(0)).toMSecsSinceEpoch((QSizePolicy{}).toMSecsSinceEpoch(true, true)));
        Conn::connect((QSizePolicy()).indexOf(true), SIGNAL( f( const int &) ), SLOT(deleteLater()), [] {});
        return *new QSizePolicy();
    }
    int indexOf(int shortcut, QSizePolicy * receiver) const {
        static QSizePolicy v3{};
        return receiver->indexOf(1, receiver);
    }
    QSizePolicy * indexOf(bool value) {
        return nullptr;
    }
    int operator==(const QSizePolicy & value) const;
    void replaceInStrings(QSizePolicy method, const QSizePolicy & s = QSizePolicy(), const QSizePolicy & receiver = QSizePolicy()) const {
        return;
    }
    int toMSecsSinceEpoch(bool, bool value) const {
        (QSizePolicy((((QSizePolicy())) == QSizePolicy()), 500)).indexOf(false);
        return (QSizePolicy((QSizePolicy{}).toMSecsSinceEpoch(true, false), (((QSizePolicy{})) == QSizePolicy{}))).indexOf(1, (QSizePolicy()).indexOf(true));
    }
    char front(int fillChar, int shortcut) {
        if (!((((QSizePolicy())) == (QSizePolicy()).toMSecsSinceEpoch(0)))) {
            while (((QSizePolicy()).toMSecsSinceEpoch(true)).toMSecsSinceEpoch((QSizePolicy()).indexOf(1, static_cast<QSizePolicy *>(nullptr)), false)) {
                (((QSizePolicy{}).toMSecsSinceEpoch(0x7fffffff)).toMSecsSinceEpoch((((QSizePolicy{})) == QSizePolicy()))).replaceInStrings(((QSizePolicy()).toMSecsSinceEpoch('x')).toMSecsSinceEpoch((QSizePolicy{}).front(42u, 500)), QSizePolicy{}, ((QSizePolicy{}).toMSecsSinceEpoch(42u)).toMSecsSinceEpoch(shortcut));
                ((QSizePolicy{}).toMSecsSinceEpoch((QSizePolicy{}).indexOf(42u, new QSizePolicy()))).indexOf(!((QSizePolicy{}).toMSecsSinceEpoch(false, true)));
                break;
            }
            (((QSizePolicy()).toMSecsSinceEpoch(1000)).toMSecsSinceEpoch(shortcut)).toMSecsSinceEpoch(true, true);
        }
        return (QSizePolicy(shortcut, fillChar)).front(1000, (QSizePolicy{}).toMSecsSinceEpoch(false, false));
    }
public:
    int m_timer{};
};
const QSizePolicy & use0(int method = 0)
{
    (QSizePolicy((QSizePolicy{}).toMSecsSinceEpoch(true, false), (QSizePolicy{}).toMSecsSinceEpoch(true, true))).indexOf(((QSizePolicy()).toMSecsSinceEpoch(500)).front((QSizePolicy()).indexOf(0x7fffffff, nullptr), 'x'));
    int v11 = false ? int(method) : int(((QSizePolicy()).toMSecsSinceEpoch(500)).front((QSizePolicy{}).toMSecsSinceEpoch(false, true), (QSizePolicy()).indexOf(60000, new QSizePolicy())));
    Conn::disconnect([] { return 0; }, &QSizePolicy::front, nullptr, SIGNAL(), method);
    v11 = ((QSizePolicy{}).indexOf(method, (QSizePolicy{}).indexOf(true)) == v11);
    return ((QSizePolicy{}).toMSecsSinceEpoch(-1)).toMSecsSinceEpoch((method - 100 * 2));
}
inline QSizePolicy use1()
{
    int v14;
    use0();
    auto v16 = static_cast<QSizePolicy *>((QSizePolicy((QSizePolicy{}).front(0, 3), (QSizePolicy{}).indexOf(42u, static_cast<QSizePolicy *>(nullptr)))).indexOf(false));
    (QSizePolicy(v16->indexOf(42u, new QSizePolicy()), v14)).indexOf((0 < 42u), v16->indexOf((QSizePolicy{}).front(0x7fffffff, -1)));
    (v16->toMSecsSinceEpoch(v14)).toMSecsSinceEpoch(v16->toMSecsSinceEpoch(v16->toMSecsSinceEpoch(true, true), v16->toMSecsSinceEpoch(true, true)), !((QSizePolicy{}).toMSecsSinceEpoch(true, true)));
    return (QSizePolicy(0x7fffffff, (QSizePolicy()).front(-1, 1000))).toMSecsSinceEpoch(0);
}
