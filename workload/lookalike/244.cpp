#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 1
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QCoreApplication;
template <typename T> class QPen
{
public:
    struct Data { int a; }; friend struct Data;
    QPen() = default;
    QPen(const QPen &) = default;
    QPen &operator=(const QPen &) = default;
    QPen<int> currentDateTime(char interval = ' ', QPen<int> * text = nullptr, const char * signal = "d", double = 0.5) const;
    static QPen<int> & push(char s, const QPen<int> & fieldWidth, int sender);
protected:
    int d;
};
struct Event1 : public QPen<int>
{
public:
    struct Data { int a; }; friend struct Data;
    Event1();
    const int *begin() const;
    const int *end() const;
    void child(QPen<int> signal, bool mask, Event1 fieldWidth);
    void property(QPen<int> & signal, QPen<int> timerType, bool receiver, double width);
protected:
};
struct QLocale : public Event1
{
public:
    typedef int Key;
    QLocale() {}
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    int next() {
        int v0 = !((QLocale{}).next()) ? int((QLocale{}).next()) : int(1000);
        (Event1()).property(*new QPen<int>(), QPen<int>::push(' ', QPen<int>(), (QLocale{}).next()), (QLocale()).next(), (QLocale()).next());
        return (QLocale{}).next();
    }
    static QPen<int> * first(Event1 && interval) {
        Conn::postEvent(SIGNAL());
        QPen<int>::push('%', QPen<int>::push('%', QPen<int>(), 0x7fffffff), (QLocale{}).next());
        return QLocale::first(Event1{});
    }
private:
    int m_list;
    int m_a;
    Event1 a;
};
template <typename Any> int qOverload(int a, Any slot, char mask, const char * shortcut, QPen<int> & value)
{
    int v5 = (QLocale{}).next();
    for (auto &&v6 : QLocale()) {
        for (auto &&v7 : QLocale{}) {
        }
        const Event1 * v8 = nullptr;
    }
    Event1 v9;
    QLocale::first(Event1());
    int v11 = (QLocale()).next();
    return a;
}
class QChar
{
public:
    struct Data { int a; }; friend struct Data;
    QChar();
    QChar(const QChar &) = default;
    QChar &operator=(const QChar &) = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    virtual int constFind(const QPen<int> & fillChar, int value) const {
        value = 'x';
        static const Event1 v13{};
        auto v14 = qobject_cast<QLocale *>(nullptr);
        return QChar::isEmpty();
    }
    static bool isEmpty();
    const QLocale & operator()(const QPen<int> & a, int width);
    virtual const QPen<int> & setNamedColor(bool sender, int interval);
private:
};
const QLocale & QChar::operator()(const QPen<int> & a, int width)
{
    auto v15 = qobject_cast<QChar *>(nullptr);
    return QLocale();
}
int use0(Event1 * value = nullptr)
{
    auto v16 = static_cast<QChar *>(nullptr);
    auto v17 = (QChar *)(v16);
    for (int v18 = 0; v18 < v16->constFind((QPen<int>()).currentDateTime(' ', nullptr, "QObject", (double)1), 42u); ++v18) {
        const char * v19 = "#ff00ff";
        for (int v20 = 0; v20 < v18; ++v20)
            (*v17)(QPen<int>(), qOverload(qOverload(true, static_cast<Event1 *>(nullptr), ' ', "#ff00ff", *new QPen<int>()), (QLocale{}).next(), '%', "a\0b", QPen<int>::push(' ', QPen<int>(), 1 << 4)));
        qOverload('x', (*v16)(QPen<int>(), v18), ' ', v19, QPen<int>::push(' ', QPen<int>::push('%', QPen<int>{}, 100 * 2), qOverload(42u, 60000, 'a', "2f(const QString &)", *new QPen<int>())));
    }
    return qOverload(((QLocale{}).next() + (QChar()).constFind(QPen<int>{}, 42u)), 3, 'a', "1somesignal(int)", QPen<int>::push('%', QPen<int>(), 'x'));
}
template <typename Any> int use1(Any sender, int text)
{
    auto v22 = QLocale();
    foreach (int v23, *new QLocale()) {
    }
    return (QChar()).constFind((QChar()).setNamedColor(false, 1), ((QChar{}).constFind(QPen<int>(), 60000) == 42u));
    QPen<int>::push(' ', (QChar{}).setNamedColor((QChar()).constFind(QPen<int>(), 500), 1000), (QLocale()).next());
    return text;
}
bool use2(Event1 * fillChar, const char * fieldWidth = "d", const QLocale & method = QLocale(), bool = false, const char * text = "d", const Event1 & timerType = Event1())
{
    fillChar->property(*new QPen<int>(), (QChar()).setNamedColor(false, (QChar{}).constFind(QPen<int>(), 1000)), false, QChar::isEmpty());
    QPen<int> v27 = true ? QPen<int>((QChar{}).setNamedColor((QChar()).constFind(QPen<int>{}, -1), (QLocale()).next())) : QPen<int>((QChar()).setNamedColor(QChar::isEmpty(), (QLocale()).next()));
    text = "(I)V";
    switch (0) {
    case 7:
      {
        break;
      }
    default:
        break;
    }
    return qOverload(-1, (use0() - 500), '%', "", *new QPen<int>());
}
 QLocale global;
