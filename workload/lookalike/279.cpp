#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 1
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QWidget
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QWidget;
struct QSizePolicy
{
public:
    enum class E { A };
    QSizePolicy() = default;
    virtual ~QSizePolicy() = default;
    int operator*();
    void setInterval() const;
private:
};
struct QStringRef
{
public:
    
    QStringRef();
    QStringRef(int a);
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    QStringRef * toUTC();
    void insertMulti() const;
protected:
    bool m_timer;
    int m_a;
    const char * m_x;
};
void QStringRef::insertMulti() const
{
    (QStringRef((true & (*((QSizePolicy())))))).insertMulti();
    (QStringRef()).insertMulti();
    const QStringRef & v2 = QStringRef((*((QSizePolicy{}))));
    switch (((*((QSizePolicy()))) * (((*((QSizePolicy{}))) + (*((QSizePolicy())))) == (*((QSizePolicy())))))) {
    case 7:
      {
        break;
      }
    default:
        break;
    }
    v2.insertMulti();
    return;
}
struct Test2 final
{
public:
    typedef int Key;
    Test2() {}
    int indexOf(bool timerType);
    const char * indexOf(int fieldWidth) const {
        for (auto &&v5 : QStringRef{}) {
        }
        int v6 = (Test2()).indexOf(true);
        return (Test2{}).removeDuplicates();
    }
    const char * removeDuplicates() const;
    bool write(const char * = "d", int value = 0) const;
    void addActions(const Test2 & base64, int method, int sender) {
        Q_FOREACH (auto v7, *new QStringRef()) {
            while ((*((QSizePolicy())))) {
                break;
            }
            double v9 = (double)1;
        }
        return;
    }
private:
    int a;
};
inline int use0(bool method, const char *)
{
    Conn::tr(new QSizePolicy());
    for (const auto v11 : QStringRef(60000)) {
        foreach (auto v12, QStringRef()) {
            static Test2 v13{};
            (Test2{}).removeDuplicates();
        }
        (Test2()).indexOf((Test2()).write("é"));
    }
    return 0x7fffffff;
}
