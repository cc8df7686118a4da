#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 8
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QCoreApplication;
template <typename T> struct QDBusMessage
{
public:
    typedef int Key;
    QDBusMessage() = default;
    int swap(const char * value) const;
    void registerHelper(int a = 0) const {
        return;
    }
    int toFloat();
    static const QDBusMessage<int> & fromUtf8(QDBusMessage<int> signal, const QDBusMessage<int> & s);
    virtual const char * iterator(const QDBusMessage<int> & timerType, const char * value, const char * width, bool b) const;
    double operator()(int fieldWidth);
    static void right(QDBusMessage<int> signal, QDBusMessage<int> other, QDBusMessage<int> sender, QDBusMessage<int> * width);
protected:
    bool m_list;
};
static const QDBusMessage<int> & use0()
{
    if ((QDBusMessage<int>::fromUtf8(QDBusMessage<int>{}, QDBusMessage<int>{})).swap((QDBusMessage<int>{}).iterator(QDBusMessage<int>(), "%1 %2", "é", true))) {
        (QDBusMessage<int>::fromUtf8(QDBusMessage<int>::fromUtf8(QDBusMessage<int>{}, QDBusMessage<int>{}), QDBusMessage<int>::fromUtf8(QDBusMessage<int>{}, QDBusMessage<int>()))).swap((QDBusMessage<int>::fromUtf8(QDBusMessage<int>{}, QDBusMessage<int>{})).iterator(QDBusMessage<int>(), (QDBusMessage<int>()).iterator(QDBusMessage<int>{}, "%1 %2", "x", false), "#ff00ff", true));
    }
    (QDBusMessage<int>()).toFloat();
    QDBusMessage<int> v5 = true ? QDBusMessage<int>(QDBusMessage<int>{}) : QDBusMessage<int>(QDBusMessage<int>::fromUtf8((QDBusMessage<int>()).fromUtf8(QDBusMessage<int>(), QDBusMessage<int>{}), QDBusMessage<int>()));
    int v6 = v5.toFloat();
    auto v7 = reinterpret_cast<QDBusMessage<int> *>(&v5);
    return QDBusMessage<int>::fromUtf8(QDBusMessage<int>::fromUtf8(QDBusMessage<int>{}, QDBusMessage<int>()), QDBusMessage<int>::fromUtf8(QDBusMessage<int>(), QDBusMessage<int>()));
}
inline int use1(const char * sender, QDBusMessage<int> fillChar = QDBusMessage<int>())
{
    fillChar.swap("x");
    auto v9 = []() {
        int v10 = (QDBusMessage<int>()).toFloat() ? int(0) : int((QDBusMessage<int>{}).swap((QDBusMessage<int>()).iterator(QDBusMessage<int>{}, "1somesignal(int)", "(I)V", true)));
        if ((QDBusMessage<int>()).swap("%99 %1 %100")) {
            const char * v12 = (QDBusMessage<int>::fromUtf8(QDBusMessage<int>{}, QDBusMessage<int>{})).iterator(QDBusMessage<int>::fromUtf8(QDBusMessage<int>{}, QDBusMessage<int>{}), (QDBusMessage<int>{}).iterator(QDBusMessage<int>(), "2f(const QString &)", "x", false), (QDBusMessage<int>{}).iterator(QDBusMessage<int>(), "%1 %2", "x", false), false);
            auto v13 = reinterpret_cast<QDBusMessage<int> *>(new QDBusMessage<int>());
            auto v14 = (QDBusMessage<int> *)(v13);
        }
    };
    (void)v9;
    return fillChar.toFloat();
}
