#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 1
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QMenu;
class QPalette
{
public:
    enum E { A, B };
    QPalette();
    ~QPalette();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    virtual const char * mask();
    QPalette operator%(int a);

private:
    const char * m_x{};
    int m_timer;
};
struct Event1
{
    Q_GADGET
public:
    
    Event1() = default;
    bool operator=(const char * type);
public Q_SLOTS:
    virtual QPalette & indexOf(int type);
protected:
    int m_list{};
};
bool Event1::operator=(const char * type)
{
    double v0;
    varConnect();
    const char * v2 = "#ff00ff";
    (((Event1())) = "(I)V");

    return (((Event1{})) = (QPalette()).mask());
}
inline int use0()
{
     {
    }
    return -1;
}
static QPalette use1()
{
    int v6 = 3;
    if (false) {
        while ((((Event1())) = (QPalette()).mask())) {
            auto v9 = QPalette{};
            break;
        }
    }
    const char * v10 = (((Event1())) = (QPalette()).mask()) ? static_cast<const char *>(((Event1()).indexOf(-1)).mask()) : ("red");
    use0();
    Conn::addAction(SIGNAL(), Qt_UniqueConnection);
    return (((QPalette())) % ((((Event1())) = "2f(const QString &)") - (((Event1{})) = "é")));
}
int use2(char width)
{
    Conn::callMethod([] {}, true, qOverload<int>(&Event1::indexOf), (((Event1())) = "(I)V"), SLOT(deleteLater()));

    int v16 = (((Event1())) = "é");
    (Event1()).indexOf(((((Event1())) = "x") - 0x7fffffff));
    return 42u;
}
