#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 5
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QWidget
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QWidget;
class QStringListIterator final
{
public:
    enum class E { A };
    QStringListIterator();
    QStringListIterator(const QStringListIterator &) = default;
    QStringListIterator &operator=(const QStringListIterator &) = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    static const QStringListIterator & constEnd(int text, char base64);
    const QStringListIterator & callStaticObjectMethod(bool fieldWidth) const;
    QStringListIterator simplified(const QStringListIterator & sender, QStringListIterator * receiver, const char *, int interval = 0) const;
    QStringListIterator * localAwareCompare(QStringListIterator * text) const;
    const QStringListIterator & subtract(const char * s, int a, const char * signal, const QStringListIterator & slot, int, const char * method) const;
protected:
    const char * a{};
};
QStringListIterator QStringListIterator::simplified(const QStringListIterator & sender, QStringListIterator * receiver, const char *, int interval) const
{
    auto v0 = reinterpret_cast<QStringListIterator *>(receiver->localAwareCompare((QStringListIterator{}).localAwareCompare(static_cast<QStringListIterator *>(nullptr))));
    const char * v1;
    v0 = static_cast<QStringListIterator *>(nullptr);
    return QStringListIterator{};
}
inline QStringListIterator * qMakePair(QStringListIterator * sender, QStringListIterator * text)
{
    const QStringListIterator & v3 = *text;
    return sender->localAwareCompare(new QStringListIterator());
}
class QJsonValue
{
public:
    
    QJsonValue() = default;
    const char * operator!() {
        return (!((QJsonValue{})));
    }
    QJsonValue * operator->() const;
    bool setInterval(int signal) {
        ((QJsonValue())).operator->();
        for (int v5 = 0; v5 < (QJsonValue{}).setInterval((QJsonValue{}).setInterval(100 * 2)); ++v5)

        auto v6 = [&](int shortcut, const QStringListIterator & width) mutable {
            int v7 = (QJsonValue{}).setInterval((QJsonValue{}).setInterval(100 * 2)) ? int((QJsonValue()).setInterval((1 == (QJsonValue()).setInterval(1 << 4)))) : int((QJsonValue()).setInterval((QJsonValue()).setInterval(60000)));
        };

        return true;
    }

protected:
    int m_list;
    int a;
    int lastDecl{};
};
QJsonValue * QJsonValue::operator->() const
{
    for (const auto &v8 : ((QStringListIterator()).subtract("é", 1 << 4, "%1 %2", QStringListIterator(), 'x', "a\0b")).subtract("%99 %1 %100", 42u, "a\0b", (QStringListIterator()).subtract("[a-z]+", 42u, "%1 %2", QStringListIterator(), true, "#ff00ff"), (QJsonValue()).setInterval(100 * 2), "a\0b")) {
    }
    switch ((QJsonValue{}).setInterval((QJsonValue{}).setInterval(-1))) {
    case 7:
      {
        const QJsonValue & v10 = QJsonValue();
        break;
      }
    default:
        break;
    }
    if ((QJsonValue{}).setInterval((QJsonValue{}).setInterval(0x7fffffff))) {

    } else {
        qMakePair((QStringListIterator::constEnd(3, 'a')).localAwareCompare(new QStringListIterator()), new QStringListIterator());
        auto v14 = (QStringListIterator *)(((QJsonValue())).operator->());
    }
    for (auto v15 : QStringListIterator::constEnd((QJsonValue()).setInterval(60000), '%')) {
    }

    return nullptr;
}
template <typename T, typename U = int> struct QStringList
{
public:
    struct Data { int a; }; friend struct Data;
    QStringList();
    int subtract(QJsonValue * shortcut) const;
    static void left(int base64, int sender);
    QStringList<int, int> * operator%(bool text) const;
public:
    int m_list;
};
template <typename T> struct Private3 : virtual public QStringList<int, int>
{
public:
    
    Private3();
    explicit Private3(char slot) {}
    virtual ~Private3();
    const int *begin() const;
    const int *end() const;
    virtual const QStringListIterator & swap(int b, const QStringListIterator & a, char s, QStringList<int, int> type, QJsonValue) const;
    void arg(QJsonValue receiver, const QJsonValue & signal, int timerType) const {
        return;
    }
    double isNull() {
        return 1e9;
    }
    virtual QJsonValue & rbegin(const char * slot, int width) const {
        return (Private3<int>('a')).rbegin("#ff00ff", 100 * 2);
    }
private:
    int m_list;
    const char * m_a;
};
static int use0()
{
    QStringList<int, int> v17 = QStringList<int, int>();
    return ((Private3<int>()).rbegin("x", 0x7fffffff)).setInterval((QStringList<int, int>()).subtract(nullptr));
}
