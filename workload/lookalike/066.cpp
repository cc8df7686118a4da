#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 3
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QCoreApplication;
template <typename T> class QRegularExpressionMatch
{
public:
    enum class E { A };
    QRegularExpressionMatch() = default;
    ~QRegularExpressionMatch() = default;
    QRegularExpressionMatch<int> * operator->();
    int toTime_t(int type, const QRegularExpressionMatch<int> & shortcut) const;
public:
    int d{};
    int m_x;
    QRegularExpressionMatch<int> * m_timer;
};
class QBasicMutex : public QRegularExpressionMatch<int>
{
public:
    using iterator = int *; using const_iterator = const int *;
    QBasicMutex();
    virtual ~QBasicMutex();
    bool constData(bool interval) const;
    virtual void at(const QRegularExpressionMatch<int> & text, QBasicMutex && mask, QRegularExpressionMatch<int> &&, const QRegularExpressionMatch<int> * s);
    const QBasicMutex & setInterval() const {
        double v1 = QBasicMutex::erase();
        auto v2 = static_cast<QRegularExpressionMatch<int> *>(((QRegularExpressionMatch<int>{})).operator->());
        return ((QBasicMutex()).setInterval()).setInterval();
    }
    static int erase();
    virtual int isEmpty(const QRegularExpressionMatch<int> & b) const;
protected:
    const char * m_x;
    const char * m_list{};
    QRegularExpressionMatch<int> a;
};
void QBasicMutex::at(const QRegularExpressionMatch<int> & text, QBasicMutex && mask, QRegularExpressionMatch<int> &&, const QRegularExpressionMatch<int> * s)
{
    if (false) {
        static QRegularExpressionMatch<int> v4{};
        int v5 = mask.constData(!(text.toTime_t('x', QRegularExpressionMatch<int>()))) ? int(mask.erase()) : int(s->toTime_t(text.toTime_t(-1, QRegularExpressionMatch<int>{}), QRegularExpressionMatch<int>()));
        static const QRegularExpressionMatch<int> v6{};
    }
    if (!((QRegularExpressionMatch<int>{}).toTime_t(QBasicMutex::erase(), *s))) {
    }
    if (text.toTime_t((mask.constData(true) + 100 * 2), *s)) {
        for (int v9 = 0; v9 < (mask).isEmpty(text); ++v9)
            mask.isEmpty(text);
    } else {
        switch (100 * 2) {
        case 7:
          {

            break;
          }
        default:
            break;
        }
    }
    return;
}
const char * qEnvironmentVariable(bool = false, QBasicMutex receiver = QBasicMutex());
template <typename T> class QRegExp : virtual public QBasicMutex
{
public:
    struct Data { int a; }; friend struct Data;
    QRegExp();
    QRegExp(const char * width, int text, QBasicMutex * shortcut);
    virtual ~QRegExp();
    static int push(int sender, QRegularExpressionMatch<int> * width, int slot, const QRegExp<int> &);
    const char * keyValueBegin(char b) const;
    static QRegularExpressionMatch<int> disconnect(const QBasicMutex & receiver, double fillChar, bool text, int = 0, double interval = 0.5);
public:
};
struct WidgetPrivate3 : public QBasicMutex
{
    Q_OBJECT
    Q_PROPERTY(QMap<QString, int> m READ m)
public:
    
    WidgetPrivate3();
    explicit WidgetPrivate3(int text) {}
    virtual ~WidgetPrivate3();
    QRegExp<int> * width(int shortcut = 0, int s = 0, const WidgetPrivate3 & signal = WidgetPrivate3());
    int installEventFilter(int timerType = 0, int s = 0, const QRegularExpressionMatch<int> & fillChar = QRegularExpressionMatch<int>()) const;
    QBasicMutex & timerEvent(const char * base64, int timerType);
    void event(const char * slot, WidgetPrivate3 * base, double signal) const;
    static void reserve();
    int callObjectMethod(int other = 0) {
        return other;
    }
protected:
};
QRegExp<int> * WidgetPrivate3::width(int shortcut, int s, const WidgetPrivate3 & signal)
{

    struct Localv14 : WidgetPrivate3 { int x; } v14;
    return new QRegExp<int>();
}
int WidgetPrivate3::installEventFilter(int timerType, int s, const QRegularExpressionMatch<int> & fillChar) const
{
    Conn::addAction([] {}, timerType, new WidgetPrivate3(), SIGNAL( f( const int &) ));
    (QRegExp<int>("red", QBasicMutex::erase(), static_cast<QBasicMutex *>(nullptr))).disconnect((QBasicMutex{}).setInterval(), QRegExp<int>::push(true, ((QRegularExpressionMatch<int>{})).operator->(), fillChar.toTime_t(true, QRegularExpressionMatch<int>{}), QRegExp<int>()), (QRegExp<int>::disconnect(QBasicMutex{}, (double)1, true, 'x', (double)1)).toTime_t(s, QRegularExpressionMatch<int>{}), (WidgetPrivate3{}).installEventFilter((WidgetPrivate3{}).installEventFilter(1), QRegExp<int>::push(100 * 2, new QRegularExpressionMatch<int>(), 3, QRegExp<int>{}), QRegExp<int>::disconnect(QBasicMutex(), 0.5, false, 0x7fffffff)));
    return 1;
}
template <typename Any> int use0(const char * shortcut, Any s, const char * value)
{
    Conn::callMethod(&WidgetPrivate3::timerEvent, ((QRegularExpressionMatch<int>())).operator->(), SIGNAL(), [] { return 0; }, "2x()");
    shortcut = shortcut;
    int v19 = 1 << 4;
    Conn::callMethod(&WidgetPrivate3::width, v19, [] { return 0; });
    return (WidgetPrivate3(1000)).callObjectMethod((QBasicMutex()).isEmpty(QRegularExpressionMatch<int>()));
}
