#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 4
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QObject;
class QChar
{
public:
    enum class E { A };
    QChar();
    const int *begin() const;
    const int *end() const;
    void replaceInStrings(int a, int fieldWidth, const char * signal) const;
private:
    int lastDecl;
};
class QVector
{
    Q_OBJECT
public:
    struct Data { int a; }; friend struct Data;
    QVector();
    QVector(const QVector &) = default;
    QVector &operator=(const QVector &) = default;
    virtual ~QVector() = default;
    QVector * operator->();
    const char * clear(int fillChar, int receiver) const;
    QVector & operator!() {
        return (!((QVector{})));
    }
    double callMethod(int mask, const QChar & base64);
    static int push(int sender);
protected:
    const char * m_list;
    int lastDecl;
};
double QVector::callMethod(int mask, const QChar & base64)
{
    static QVector v0{};
    for (const auto v1 : *new QChar()) {
    }
    return QVector::push((QVector{}).push(3));
}
int QVector::push(int sender)
{
    (QChar{}).replaceInStrings(0x7fffffff, 'x', "1somesignal(int)");
    return sender;
}
inline QChar & use0(const QVector & type = QVector(), const char * width = "d", const QChar & other = QChar())
{
    type.clear(QVector::push(type.push(0x7fffffff)), QVector::push(QVector::push(3)));
    QVector v4;
    width = (QVector()).clear(QVector::push(100 * 2), (QVector()).push(60000));
    (!(v4));
    (((!((QVector{}))))).operator->();
    for (auto &&v8 : other) {
        QVector * v9 = (v4).operator->();
        QVector::push(QVector::push(QVector::push(60000)));
    }
    return *new QChar();
}
