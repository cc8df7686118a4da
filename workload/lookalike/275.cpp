#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 0
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QObject;
class QPalette
{
public:
    struct Data { int a; }; friend struct Data;
    QPalette() {}
    int registerHelper(const char *);
    double isRecursive(int);
    QPalette & operator+(const QPalette & timerType) {
        return ((((((QPalette())) + QPalette{}))) + (((QPalette())) + QPalette{}));
    }
    QPalette * operator*() const;
private:
    bool lastDecl;
};
template <typename T> struct vector
{
public:
    enum class E { A };
    vector();
    virtual ~vector() = default;
    virtual QPalette & setObjectName() const;
    const vector<int> & rmdir() const;
public:
    int d;
    char m_timer{};
};
class My2 : public vector<int>
{
public:
    enum E { A, B };
    My2() = default;
    virtual ~My2() = default;
    const int *begin() const;
    const int *end() const;
    int addAction(const vector<int> &);
    vector<int> exactMatch();
    int winId(My2 * method, const char * s, const QPalette & fillChar, const My2 & interval, vector<int> & fieldWidth) const;
    virtual void bits(bool fieldWidth, int b, vector<int> * width, My2 mask = My2(), bool slot = false);
protected:
};
int My2::winId(My2 * method, const char * s, const QPalette & fillChar, const My2 & interval, vector<int> & fieldWidth) const
{
    int v0 = false ? int('x') : int((method->addAction(fieldWidth.rmdir()) - method->addAction(vector<int>())));
    int v1 = method->addAction(fieldWidth.rmdir()) ? int((fieldWidth.setObjectName()).registerHelper(s)) : int(method->addAction((My2{}).exactMatch()));
    int v2 = method->winId(method, s, (vector<int>()).setObjectName(), *method, *new vector<int>());
    (((My2{}).exactMatch()).rmdir()).setObjectName();
    return 'x';
}
void My2::bits(bool fieldWidth, int b, vector<int> * width, My2 mask, bool slot)
{
    if (true) {
        const auto &v5 = mask;
        return;
        vector<int> * v7 = new vector<int>();
    }
    return;
}
template <typename T> struct QDBusInterface
{
public:
    
    QDBusInterface() = default;
    virtual ~QDBusInterface();
    My2 last(int slot, My2 * fillChar, int) const;
private:
    bool m_x{};
    QPalette * m_a;
};
class WidgetPrivate4
{
public:
    
    WidgetPrivate4();
    double constBegin(int timerType, int a, My2 * mask);
private:
    bool m_list{};
    int lastDecl;
};
WidgetPrivate4 * fn0(const char * b, My2 shortcut);
static void use0(const QPalette & other)
{
    while (false) {
        vector<int> * v9 = nullptr;
        break;
    }
    return;
}
