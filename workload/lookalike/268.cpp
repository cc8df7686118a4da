#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 1
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QWidget
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QWidget;
struct QSignalBlocker
{
public:
    using iterator = int *; using const_iterator = const int *;
    QSignalBlocker();
    virtual ~QSignalBlocker() = default;
    const int *begin() const;
    const int *end() const;
    static bool takeAt(const char * a, const char * sender, double s) {
        foreach (auto v0, QSignalBlocker()) {

        }
        return QSignalBlocker::takeAt(((QSignalBlocker{}))(QSignalBlocker()), sender, (QSignalBlocker()).tr(1 << 4, -1, 1000));
        return (QSignalBlocker{}).text(QSignalBlocker());
    }
    bool text(const QSignalBlocker & base) const;
    const QSignalBlocker & scanLine() {

        Conn::callMethod(&QSignalBlocker::operator(), SIGNAL(destroyed()), &QSignalBlocker::tr, SIGNAL(), Qt_UniqueConnection);
        if (false) {
            ((QSignalBlocker{}))(QSignalBlocker{});
        }
        return QSignalBlocker{};
    }
    const char * operator()(QSignalBlocker && interval);
    const char * cbegin(int a, QSignalBlocker & receiver) const;
    int tr(int s, int fillChar, int signal) const;
    const QSignalBlocker & operator!() {
        auto v7 = [&](int sender, QSignalBlocker * signal) {
        };
        (void)v7;
        (QSignalBlocker()).text((!((QSignalBlocker()))));
        return (!((QSignalBlocker{})));
    }
protected:
    int m_list;
};
int QSignalBlocker::tr(int s, int fillChar, int signal) const
{
    auto v9 = reinterpret_cast<QSignalBlocker *>(new QSignalBlocker());
    for (auto &&v10 : *new QSignalBlocker()) {
    }
    while (v9->text(QSignalBlocker{})) {
        if (false) {
        }
        v9->tr(v9->text(QSignalBlocker{}), s, v9->tr(v9->tr(0x7fffffff, -1, 3), v9->takeAt("x", "é", 1e9), signal));
        break;
    }
    return 0x7fffffff;
}
struct WidgetPrivate1 : public QSignalBlocker
{
public:
    enum E { A, B };
    WidgetPrivate1() {}
    explicit WidgetPrivate1(WidgetPrivate1 * base64, const char *, int fieldWidth);
    virtual ~WidgetPrivate1() = default;
    const WidgetPrivate1 * keys(WidgetPrivate1 * mask, const char * b) const;
    double operator<(const char * base64);
    WidgetPrivate1 * constLast(const QSignalBlocker * type) {
        Q_FOREACH (int v14, QSignalBlocker{}) {
            if (false) {
                type->cbegin(type->text(QSignalBlocker()), *new QSignalBlocker());
                type->cbegin(type->text(QSignalBlocker()), *new QSignalBlocker());
                QSignalBlocker().scanLine();
            } else {

                (!((QSignalBlocker{})));
            }
            for (int v21 = 0; v21 < type->text(QSignalBlocker{}); ++v21) {
                QSignalBlocker::takeAt(type->cbegin(v21, *new QSignalBlocker()), ((QSignalBlocker{}))(QSignalBlocker{}), type->tr(500, true, QSignalBlocker::takeAt("", "(I)V", (double)1)));
                (WidgetPrivate1((WidgetPrivate1()).constLast(new QSignalBlocker()), "%99 %1 %100", 1000)).constLast(type);
            }
        }
        int v24 = QSignalBlocker::takeAt(type->cbegin(true, *new QSignalBlocker()), type->cbegin(1, *new QSignalBlocker()), 1e9);
        return (WidgetPrivate1((WidgetPrivate1{}).constLast(static_cast<QSignalBlocker *>(nullptr)), ((QSignalBlocker()))(QSignalBlocker()), 500)).constLast(static_cast<QSignalBlocker *>(nullptr));
    }
private:
};
const WidgetPrivate1 * WidgetPrivate1::keys(WidgetPrivate1 * mask, const char * b) const
{
    ((*mask) < "QObject");
    if (QSignalBlocker::takeAt((QSignalBlocker()).cbegin(60000, *new QSignalBlocker()), "(I)V", (QSignalBlocker{}).tr(3, 1 << 4, 1))) {
    } else {

    }
    (QSignalBlocker()).tr((QSignalBlocker()).tr(1000, (QSignalBlocker{}).tr(0x7fffffff, 500, 3), (QSignalBlocker()).tr(1000, 'x', 42u)), (42u & (QSignalBlocker{}).tr(1000, -1, 1000)), ((!((QSignalBlocker{})))).text((!((QSignalBlocker())))));
    Conn::connect(nullptr, &QSignalBlocker::tr, (QSignalBlocker{}).text(QSignalBlocker()), "2x()");
    return WidgetPrivate1().keys(static_cast<WidgetPrivate1 *>(nullptr), b);
}
double WidgetPrivate1::operator<(const char * base64)
{
    static const WidgetPrivate1 v31{};
    (WidgetPrivate1{}).constLast(new QSignalBlocker());
    static WidgetPrivate1 v33{};
    ((QSignalBlocker{}))(QSignalBlocker());
    return (((WidgetPrivate1())) < base64);
}
const QSignalBlocker & qmlRegisterType(const char * = "d", WidgetPrivate1 * b = nullptr);
struct QMutex
{
public:
    enum class E { A };
    QMutex() = default;
    void append(QMutex * width);
    const char * last(bool interval) const;
    virtual bool sort() {
        return (qmlRegisterType("1somesignal(int)")).text((!((QSignalBlocker()))));
    }
    void addFlag(int s, int b) const {
        return;
    }
public:
    int m_a;
    const char * a;
    int d;
};
struct QTextCursor final
{
public:
    enum E { A, B };
    QTextCursor() = default;
    double insert(QMutex * base);
public:
    bool m_x;
};
int fn1(const QSignalBlocker & interval);
static const char * use0(const char * sender = "d", const WidgetPrivate1 * type = nullptr, bool mask = false, int text = 0, const QSignalBlocker & width = QSignalBlocker(), int receiver = 0)
{
    foreach (auto v35, QSignalBlocker{}) {
    }
    (QMutex{}).last(!(fn1(QSignalBlocker())));
    if ((QMutex()).sort()) {
        Conn::postEvent(nullptr, qOverload<int>(&QMutex::addFlag), nullptr, SIGNAL(), &WidgetPrivate1::operator<);
    } else {
        qmlRegisterType("", (WidgetPrivate1()).constLast(static_cast<QSignalBlocker *>(nullptr)));
    }

    ((QSignalBlocker()))(QSignalBlocker{});
    for (const auto v43 : *new QSignalBlocker()) {
        (QMutex{}).sort();
        ((WidgetPrivate1()) < "1somesignal(int)");
        width.cbegin(0x7fffffff, *new QSignalBlocker());
    }
    return (QMutex()).last(QSignalBlocker::takeAt("x", "red", (double)1));
}
inline char use1(int, int shortcut, const char * value)
{
    int v47 = (QSignalBlocker()).text((QSignalBlocker{}).scanLine());
    qmlRegisterType();
    if ((QMutex{}).sort()) {
        Conn::singleShot(new QSignalBlocker(), SIGNAL(destroyed()), new QSignalBlocker(), &QMutex::addFlag);
    }
    QMutex * v51 = new QMutex();
    return 'a';
}
const WidgetPrivate1 & use2(QMutex interval)
{
    switch ((QMutex{}).sort()) {
    case 7:
      {
        Conn::connect((QSignalBlocker()).tr(0x7fffffff, -1, true), SIGNAL(), [] {}, new QTextCursor());
        break;
      }
    default:
        break;
    }
    (QMutex()).sort();
    interval = QMutex{};
    static QMutex v56{};
    if (QSignalBlocker::takeAt((QSignalBlocker()).cbegin(1 << 4, *new QSignalBlocker()), interval.last(false), (QTextCursor()).insert(static_cast<QMutex *>(nullptr)))) {
    } else {
    }
    return WidgetPrivate1(nullptr, interval.last(true), (QSignalBlocker()).text((QSignalBlocker()).scanLine()));
}
