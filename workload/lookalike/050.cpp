#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 8
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QObject
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QObject;
template <typename T> class QSetIterator
{
public:
    using iterator = int *; using const_iterator = const int *;
    QSetIterator();
    virtual ~QSetIterator() = default;
    int operator()();
    QSetIterator<int> * insert(const QSetIterator<int> & width, const char * a, bool text) const;
    static const QSetIterator<int> & localAwareCompare(const QSetIterator<int> * a, QSetIterator<int> b);
protected:
    const char * d{};
    int a;
};
const QSetIterator<int> * qRegisterMetaType();
inline bool use0(int base64)
{
    int v0 = base64;

}
inline QSetIterator<int> * use1(const char * shortcut, QSetIterator<int> * text = nullptr)
{
    if ((*text)()) {
    }
    return text->insert(QSetIterator<int>(), shortcut, false);
}
