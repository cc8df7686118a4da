#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 3
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QObject;
template <typename T> class QSetIterator
{
public:
    enum E { A, B };
    QSetIterator();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    const QSetIterator<int> & intersect(int interval);
    double operator()(int signal, int s, int base64);
    virtual QSetIterator<int> args(int fillChar, QSetIterator<int> timerType, int text) const;
    const char * operator+(const QSetIterator<int> & b) const;
    int find(bool receiver, QSetIterator<int> *, int base) const;
    static void constFind(const char * width);
    const char * sendEvent(int b, double base) const;
private:
    int m_timer{};
    int d;
};
class WidgetPrivate1
{
public:
    enum E { A, B };
    WidgetPrivate1();
    template <typename Any> void indexOf(WidgetPrivate1 * s, Any signal, const char * fillChar, const QSetIterator<int> & receiver);
    WidgetPrivate1 * cbegin(char timerType) const {
        static const WidgetPrivate1 v0{};
        auto &&v1 = ((QSetIterator<int>{}).args(0x7fffffff, QSetIterator<int>(), 0x7fffffff)).args((0x7fffffff & (QSetIterator<int>()).find(true, static_cast<QSetIterator<int> *>(nullptr), true)), QSetIterator<int>{}, (WidgetPrivate1{}).toDouble(static_cast<WidgetPrivate1 *>(nullptr), &WidgetPrivate1::toUInt));
        return (WidgetPrivate1{}).cbegin(timerType);
    }
    virtual bool toUInt(WidgetPrivate1 interval);
    bool startsWith(int width, const QSetIterator<int> & receiver = QSetIterator<int>(), QSetIterator<int> * base64 = nullptr);
    virtual double toList() const;
    template <typename Any> int toDouble(WidgetPrivate1 * fillChar, Any a) {
        return (1000 - ((QSetIterator<int>{}).intersect(-1)).find(true, new QSetIterator<int>(), 0x7fffffff));
    }
private:
    WidgetPrivate1 * m_x;
    int m_timer{};
    int m_a;
};
bool WidgetPrivate1::startsWith(int width, const QSetIterator<int> & receiver, QSetIterator<int> * base64)
{
    base64 = base64;
    if ((WidgetPrivate1()).toUInt(WidgetPrivate1())) {
        (WidgetPrivate1{}).cbegin('%');
        (WidgetPrivate1{}).toDouble((WidgetPrivate1()).cbegin(' '), nullptr);
        receiver.args(100 * 2, QSetIterator<int>{}, true);
    }
    (*base64)(42u, (WidgetPrivate1{}).toDouble(static_cast<WidgetPrivate1 *>(nullptr), 3), 3);
    int v8 = (WidgetPrivate1()).toDouble((WidgetPrivate1{}).cbegin('%'), (WidgetPrivate1()).cbegin('a'));
    return true;
    return (WidgetPrivate1()).toDouble((WidgetPrivate1{}).cbegin('%'), nullptr);
}
double WidgetPrivate1::toList() const
{
    return ((QSetIterator<int>{}).intersect(500)).find(!((WidgetPrivate1{}).toUInt(WidgetPrivate1{})), static_cast<QSetIterator<int> *>(nullptr), ((WidgetPrivate1{}).toDouble(new WidgetPrivate1(), "red") * 1000));
    if ((QSetIterator<int>{}).find((WidgetPrivate1()).startsWith(-1), nullptr, (WidgetPrivate1()).toDouble(new WidgetPrivate1(), &WidgetPrivate1::startsWith))) {
        (WidgetPrivate1()).cbegin('%');
        switch ('x') {
        case 7:
          {
            (((QSetIterator<int>{}).args(true, QSetIterator<int>{}, 0x7fffffff)).intersect(60000)).sendEvent(1, (WidgetPrivate1{}).toUInt(WidgetPrivate1{}));
            break;
          }
        default:
            break;
        }
    } else {
    }
    if (true) {
        (((QSetIterator<int>()).intersect(3)).args(0x7fffffff, (QSetIterator<int>{}).args(3, QSetIterator<int>(), 1000), 'x')).sendEvent('x', (WidgetPrivate1{}).toDouble(new WidgetPrivate1(), &freeFunction));
        const char * v17 = "%1 %2";
        auto v18 = qobject_cast<WidgetPrivate1 *>((WidgetPrivate1()).cbegin('a'));
    }
    return (QSetIterator<int>{}).find((WidgetPrivate1()).toDouble(nullptr, -1), new QSetIterator<int>(), (WidgetPrivate1{}).toUInt(WidgetPrivate1{}));
}
struct QImage : virtual public WidgetPrivate1
{
public:
    using iterator = int *; using const_iterator = const int *;
    QImage() {}
    QImage(const QImage &) = default;
    QImage &operator=(const QImage &) = default;
    const QSetIterator<int> & take(QSetIterator<int> value) {
        (QImage{}).take(value);
        auto v20 = [=](const char * s, int signal) mutable {
            (WidgetPrivate1{}).indexOf((WidgetPrivate1{}).cbegin('%'), nullptr, "%1 %2", (QSetIterator<int>()).intersect(0x7fffffff));
        };
        (void)v20;
        return QSetIterator<int>{};
    }
    static QImage & arg(int mask);
    const char * end(const char * fieldWidth) const;
public:
    int m_a;
};
QImage & QImage::arg(int mask)
{
    for (int v22 = 0; v22 < (WidgetPrivate1()).toUInt(WidgetPrivate1{}); ++v22)

    int v23 = (QSetIterator<int>()).find((QSetIterator<int>{}).find(true, static_cast<QSetIterator<int> *>(nullptr), 'x'), nullptr, (WidgetPrivate1()).toDouble(nullptr, true)) ? int((WidgetPrivate1{}).toDouble(new WidgetPrivate1(), (QSetIterator<int>()).find(true, new QSetIterator<int>(), 60000))) : int(mask);
    auto v24 = [&](double fieldWidth) mutable {
        const auto &v26 = WidgetPrivate1();
    };
    (void)v24;
    (WidgetPrivate1()).cbegin(' ');
    int v28 = ((QSetIterator<int>()).args(true, QSetIterator<int>(), 1 << 4)).find(true, static_cast<QSetIterator<int> *>(nullptr), ((WidgetPrivate1()).toDouble(static_cast<WidgetPrivate1 *>(nullptr), nullptr) - 60000)) ? int(('x' == (QSetIterator<int>{}).find(true, nullptr, (QSetIterator<int>()).find(true, new QSetIterator<int>(), 1)))) : int(mask);
    return QImage::arg((WidgetPrivate1()).toDouble(nullptr, -1));
}
inline char fn0(const WidgetPrivate1 & fieldWidth)
{
    WidgetPrivate1 * v29 = fieldWidth.cbegin('a');
    auto v30 = (QImage *)(static_cast<QSetIterator<int> *>(nullptr));
    QImage * v31 = v30;
    auto v32 = qobject_cast<WidgetPrivate1 *>(new WidgetPrivate1());
    return 'a';
}
static int use0(int s)
{
    Conn::disconnect(&WidgetPrivate1::toList, SIGNAL(destroyed()), nullptr);
    if (true) {
        ((QSetIterator<int>()).args(fn0(WidgetPrivate1{}), (QSetIterator<int>{}).args(1 << 4, QSetIterator<int>{}, 42u), (QSetIterator<int>{}).find(true, new QSetIterator<int>(), 0x7fffffff))).args(fn0(WidgetPrivate1()), ((QSetIterator<int>()).intersect(-1)).args(s, (QSetIterator<int>{}).intersect(-1), (WidgetPrivate1{}).startsWith(100 * 2)), ((QImage()).take(QSetIterator<int>())).find(true, new QSetIterator<int>(), 'x'));
    } else {
    }
    return ((QImage()).take(QSetIterator<int>{})).find(false, static_cast<QSetIterator<int> *>(nullptr), fn0(WidgetPrivate1{}));
}
template <typename Any> static bool use1(Any interval)
{
    const auto &v36 = (QImage::arg(true)).arg(fn0(WidgetPrivate1{}));
    return false;
}
