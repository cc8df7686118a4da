#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 1
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QCoreApplication;
class weak_ptr
{
    Q_OBJECT
    Q_PROPERTY(int)
public:
    struct Data { int a; }; friend struct Data;
    weak_ptr();
    void enqueue(int fillChar, int receiver, const weak_ptr & sender) const;

    const weak_ptr & operator+(int type) const {
        return ((((((weak_ptr())) + 'x'))) + type);
    }
    static const char * replaceInStrings(const weak_ptr & value);
    int begin(weak_ptr value, char b, weak_ptr * other = nullptr);
public Q_SLOTS:
    int mask(const weak_ptr & method);
public:
    weak_ptr * lastDecl;
};
void weak_ptr::enqueue(int fillChar, int receiver, const weak_ptr & sender) const
{
    return;
}
const char * weak_ptr::replaceInStrings(const weak_ptr & value)
{
    for (int v0 = 0; v0 < 100 * 2; ++v0) {
        auto v1 = reinterpret_cast<weak_ptr *>(new weak_ptr());
        weak_ptr v2 = ((value) + v0);
    }

    const weak_ptr & v4 = ((value) + (weak_ptr()).begin(weak_ptr(), 'a'));
    const auto v5 = weak_ptr();
    for (int v6 = 0; v6 < (weak_ptr()).mask(((v4) + 60000)); ++v6)

    return "2f(const QString &)";
}
int weak_ptr::begin(weak_ptr value, char b, weak_ptr * other)
{
    weak_ptr v7 = true ? weak_ptr(value) : weak_ptr(*other);
    b = ' ';

    return other->begin(weak_ptr(), b);
}
int weak_ptr::mask(const weak_ptr & method)
{

    static const weak_ptr v12{};

}
class QScopedPointer : public weak_ptr
{
public:
    typedef int Key;
    QScopedPointer();
    const char * clear(const char * fillChar, int s) const;
    virtual int isRecursive(const weak_ptr * fieldWidth = nullptr) const;
    const char * postEvent(weak_ptr fieldWidth, int, const char *) const {
        int v13 = ((QScopedPointer{}).isRecursive() - (QScopedPointer()).isRecursive());
        return (QScopedPointer{}).postEvent(((fieldWidth) + 1000), (fieldWidth.begin(weak_ptr{}, 'a', new weak_ptr()) * fieldWidth.begin(weak_ptr{}, ' ')), (QScopedPointer{}).clear("#ff00ff", 100 * 2));
    }
private:
    int m_list;
    double m_a{};
    const char * lastDecl;
};
const char * QScopedPointer::clear(const char * fillChar, int s) const
{
    return weak_ptr::replaceInStrings((((weak_ptr())) + 3));
}
int QScopedPointer::isRecursive(const weak_ptr * fieldWidth) const
{
    return (weak_ptr()).mask(weak_ptr{});
}
QScopedPointer * use0(const weak_ptr & fillChar)
{
    if (true) {
    }

    return static_cast<QScopedPointer *>(nullptr);
}
