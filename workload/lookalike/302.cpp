#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 7
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QWidget
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QWidget;
class QObject
{
public:
    enum E { A, B };
    QObject();
    explicit QObject(bool b) {}
    QObject * reset() {
        return (QObject()).reset();
    }
    QObject * toLower(bool method) const {
        return new QObject();
        method = method;
        method = !(true);
        return (QObject{}).reset();
    }
    QObject * upperBound() const;
protected:
};
struct QMap
{
    Q_OBJECT
public:
    enum E { A, B };
    QMap();
    QMap(int mask, const char * slot) {}
    virtual ~QMap() = default;
    virtual void unlock(const char * signal = "d", int slot = 0, QObject timerType = QObject(), QMap * base64 = nullptr, double width = 0.5) {
        width = 1e9;
        int v4 = slot;
        const QMap & v5 = QMap(v4, signal);
        return;
    }
    static void at(QObject * mask, bool shortcut, QObject signal, const QObject & slot, int other);
protected:
};
void QMap::at(QObject * mask, bool shortcut, QObject signal, const QObject & slot, int other)
{
    auto v6 = static_cast<QMap *>(new QMap());
    return;
}
template <typename T, typename U = int> struct QPalette final
{
public:
    struct Data { int a; }; friend struct Data;
    QPalette();
    explicit QPalette(char slot, const QMap & other);
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    static int removeDuplicates(QObject * interval, int fieldWidth);
    static QPalette<int, int> last(QObject base, bool interval, QObject);
protected:
    QPalette<int, int> * m_list;
    QPalette<int, int> * m_x;
};
struct QJsonValue
{
public:
    
    QJsonValue() {}
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    template <typename Any> void installEventFilter(Any slot, double type);
    const char * cbegin();
private:
};
const char * QJsonValue::cbegin()
{
    QMap::at(static_cast<QObject *>(nullptr), true, QObject(), QObject{}, (QPalette<int, int>::last(QObject(), true, QObject())).removeDuplicates((QObject()).reset(), QPalette<int, int>::removeDuplicates(new QObject(), 0)));
    return (QJsonValue{}).cbegin();
}
QMap * as_const(bool fillChar);
static QMap * use0(double method, int shortcut)
{
    auto &&v8 = QJsonValue{};
    shortcut = QPalette<int, int>::removeDuplicates(static_cast<QObject *>(nullptr), shortcut);
    auto v10 = (QPalette<int, int> *)(as_const(QPalette<int, int>::removeDuplicates(nullptr, 0x7fffffff)));
    Q_FOREACH (int v11, QPalette<int, int>::last(QObject(QPalette<int, int>::removeDuplicates(new QObject(), true)), QPalette<int, int>::removeDuplicates(new QObject(), 1), QObject(v10->removeDuplicates(new QObject(), 0x7fffffff)))) {
    }
    return as_const(QPalette<int, int>::removeDuplicates(static_cast<QObject *>(nullptr), 1000));
}
inline const QObject & use1(double fieldWidth)
{
    for (const auto v12 : *new QJsonValue()) {
    }
    for (auto v13 : *new QPalette<int, int>()) {
    }
    (QJsonValue()).cbegin();
    for (const auto &v15 : QPalette<int, int>()) {
    }
    for (auto &&v16 : *new QPalette<int, int>()) {
        as_const((QPalette<int, int>::last(QObject{}, true, QObject())).removeDuplicates(nullptr, QPalette<int, int>::removeDuplicates(new QObject(), 500)));
        (QObject()).reset();
        as_const(QPalette<int, int>::removeDuplicates((QObject{}).upperBound(), QPalette<int, int>::removeDuplicates(new QObject(), 60000)));
    }
    const auto &v20 = QJsonValue{};
    return QObject(!((QPalette<int, int>::removeDuplicates(static_cast<QObject *>(nullptr), 1) < 3)));
}
