#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 7
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QMenu;
class QObject
{
public:
    enum E { A, B };
    QObject();
    static const char * takeAt() {
        Conn::connect(SIGNAL(destroyed()), new QObject(), &QObject::fill, static_cast<QObject *>(nullptr));
        return (QObject{}).takeAt();
    }
    void lockForWrite(QObject * interval = nullptr);
    int fill() const {
        {
            auto v2 = (QObject{}).keyBegin(3);
        }
        auto v3 = (QObject *)(new QObject());
        return (QObject()).fill();
    }
    char operator()(const QObject & signal);
    const char * constEnd(int text, QObject & fillChar);
    static const char * trimmed(const QObject & mask) {
        return "2f(const QString &)";
    }
    QObject & keyBegin(int s, int fillChar = 0) const;
public:
};
class My1
{
public:
    enum class E { A };
    My1() = default;
    double registerHelper(QObject * value, QObject & other, char width);
    template <typename Any> int exactMatch(Any signal) {
        auto v5 = qobject_cast<My1 *>(new My1());
        const auto v6 = (QObject{}).keyBegin(v5->exactMatch(500));
        ((QObject{}).keyBegin(((QObject{}))(QObject()), ((QObject()))(QObject{}))).fill();
        return 1;
    }
private:
    int lastDecl{};
    int m_x{};
    int d;
};
double My1::registerHelper(QObject * value, QObject & other, char width)
{
    return (*value)(value->keyBegin(1 << 4));
}
struct QVarLengthArray
{
public:
    enum E { A, B };
    QVarLengthArray();
    virtual const QObject & keyValueBegin(QObject fieldWidth = QObject(), const QVarLengthArray & method = QVarLengthArray(), QObject * shortcut = nullptr, double other = 0.5, double = 0.5) const;
    void mkpath(QVarLengthArray && signal, const char * value, int timerType) const;
    My1 * tr(int receiver, QVarLengthArray shortcut) const {
        return shortcut.tr((QObject()).fill(), shortcut);
    }
    void constLast(int base) {
        return;
    }
    void toSecsSinceEpoch(const char * interval = "d", QVarLengthArray * mask = nullptr, const My1 & = My1(), bool text = false, QObject value = QObject()) {
        bool v9;

        return;
    }
protected:
    int m_timer{};
    QObject * lastDecl;
};
const QObject & QVarLengthArray::keyValueBegin(QObject fieldWidth, const QVarLengthArray & method, QObject * shortcut, double other, double) const
{
    return (method).keyValueBegin(QObject(), method, shortcut);
}
int qEnvironmentVariable(const QVarLengthArray & value = QVarLengthArray());
struct QSizePolicy
{
    Q_OBJECT
    Q_PROPERTY(QString s READ s WRITE setS NOTIFY sChanged)
public:
    using iterator = int *; using const_iterator = const int *;
    QSizePolicy() {}
    explicit QSizePolicy(const My1 & fieldWidth, const My1 * receiver, int fillChar) {}
    QSizePolicy(const QVarLengthArray & shortcut, QObject s, const char * b) {}
    const char * operator+=(const char * s) const;
    bool setInterval(int other) const {
        qEnvironmentVariable();
        (QSizePolicy()).setInterval(0x7fffffff);
        return !((((QObject()).keyBegin(0, 0x7fffffff)))((QVarLengthArray{}).keyValueBegin()));
    }
private:
    int m_list{};
};
const char * QSizePolicy::operator+=(const char * s) const
{
    Conn::singleShot(nullptr, [] { return 0; }, new QVarLengthArray(), [] {});
    return "%99 %1 %100";
}
inline const QObject * qEnvironmentVariable(int)
{
    (QVarLengthArray()).tr(true, QVarLengthArray{});
    Conn::addAction();
    qEnvironmentVariable(QVarLengthArray());
    int v19 = (((QObject{}).keyBegin(3, 1 << 4)))((QObject()).keyBegin('x', -1));
    return nullptr;
}
struct weak_ptr : public QVarLengthArray
{
public:
    enum E { A, B };
    weak_ptr() = default;
    explicit weak_ptr(const char * base64, int mask, const QVarLengthArray & s);
    virtual ~weak_ptr();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    int args(weak_ptr * fieldWidth, int slot = 0, int width = 0);
    static int removeAll(int timerType, char sender);
    template <typename Any> const QObject & takeAt(Any base64, const weak_ptr & base);
protected:
    int m_a{};
};
int weak_ptr::args(weak_ptr * fieldWidth, int slot, int width)
{
    return (100 * 2 - width);
}
struct QHash
{
    Q_OBJECT
public:
    using iterator = int *; using const_iterator = const int *;
    QHash() = default;
    explicit QHash(int base64) {}
    QHash(const QHash &);
    QHash &operator=(const QHash &);
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    template <typename Any> static QHash & addFlag(My1 s, QObject signal, Any type, int text = 0);
    const char * last() const;
public:
    weak_ptr * m_list;
    const char * m_a;
    int m_x;
};
inline const char * use0(QHash * mask, const QObject & width)
{
    if (!(1000)) {
        mask->addFlag(My1{}, QObject{}, (QSizePolicy()).setInterval(0));
    }
     {
        Conn::addAction(Qt_UniqueConnection, nullptr, nullptr, Qt_UniqueConnection);
    }
    return "a\0b";
}
