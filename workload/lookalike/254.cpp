#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 2
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QCoreApplication;
class QTimer
{
public:
    enum E { A, B };
    QTimer() = default;
    explicit QTimer(int timerType) {}
    explicit QTimer(bool type, int base64) {}
    virtual ~QTimer();
    double operator()() const {
        auto v0 = [&](const QTimer & timerType) {
        };
        (void)v0;
        Conn::disconnect(SIGNAL( f( const int &) ), [] { return 0; }, &QTimer::open, nullptr);
        while (((QTimer{}).toUpper(new QTimer(), 1 << 4)).open((QTimer()).fragment(new QTimer(), 'x', [&](int x) { return x; }, '%'), ' ')) {
            (((QTimer{}).toUpper(new QTimer(), 500)).toUpper((QTimer{}).fragment(static_cast<QTimer *>(nullptr), 0x7fffffff, &QTimer::operator*, 'a'), (QTimer()).swap(QTimer(), nullptr))).exec(3);
            break;
        }
        return 0.5;
    }
    virtual QTimer toUpper(QTimer * value, int method) const;
    virtual int exec(int a, int base64 = 0);
    bool operator*();
    bool open(QTimer * other, char b) const {
        for (int v6 = 0; v6 < other->swap(QTimer{}, new QTimer()); ++v6) {
        }
        int v8 = (*(*other)) ? int(other->exec((QTimer{}).exec(3))) : int(0);
        for (int v9 = 0; v9 < 'x'; ++v9)
            other->fragment(static_cast<QTimer *>(nullptr), other->exec(1000), &freeFunction, b);
        return (*(*other));
    }
    template <typename Any> QTimer * fragment(QTimer * type, int fieldWidth, Any other, char a) const {
        return nullptr;
    }
    bool swap(const QTimer & fieldWidth, QTimer *) const {
        const QTimer * v10 = new QTimer();
        (*(QTimer()));
        return fieldWidth.swap(fieldWidth, fieldWidth.fragment(nullptr, 3, 0x7fffffff, '%'));
    }
private:
    QTimer * m_a;
    const char * a;
    const char * m_list;
};
QTimer QTimer::toUpper(QTimer * value, int method) const
{
    (*value)();
    return value->toUpper(nullptr, (1 << 4 & 42u));
}
struct My1
{
    Q_OBJECT
public:
    using iterator = int *; using const_iterator = const int *;
    My1();
    My1(const My1 &) = default;
    My1 &operator=(const My1 &) = default;
    ~My1();
    const int *begin() const;
    const int *end() const;
    static int open(const char * base);
    static const QTimer & mkpath();
protected:
    int m_timer;
    int m_a;
};
static int use0(const QTimer & shortcut, QTimer * method)
{
    for (const auto &v13 : *new My1()) {
        if (true) {
        }
        for (const auto v15 : My1()) {
        }
    }
    for (int v16 = 0; v16 < (*((QTimer{}))); ++v16) {
    }
    for (int v17 = 0; v17 < 42u; ++v17) {
    }
    int v18;
    for (int v19 = 0; v19 < method->swap(QTimer(), shortcut.fragment(nullptr, 1 << 4, nullptr, ' ')); ++v19)
        (My1::mkpath()).swap(shortcut, nullptr);
    QTimer v20 = shortcut.swap((QTimer()).toUpper(new QTimer(), 1 << 4), static_cast<QTimer *>(nullptr)) ? QTimer(*method) : QTimer((shortcut).toUpper(new QTimer(), (method->exec(1) < method->exec(100 * 2, true))));
    return -1;
}
void use1(const My1 &)
{
    const auto v21 = QTimer((QTimer()).exec(use0(QTimer{}, new QTimer()), (QTimer{}).swap(QTimer(), nullptr)));
    const char * v22 = "é";
    int v23 = use0((QTimer{}).toUpper(nullptr, 'x'), new QTimer());
    auto v24 = dynamic_cast<My1 *>((QTimer()).fragment((QTimer()).fragment(new QTimer(), 1, nullptr, 'a'), My1::open(""), My1::open("(I)V"), ' '));
    use0((QTimer{}).toUpper((QTimer()).fragment(static_cast<QTimer *>(nullptr), 0, [] {}, ' '), 1), (QTimer{}).fragment((QTimer()).fragment(new QTimer(), 0, &freeFunction, '%'), (QTimer{}).exec(true, 60000), *v24, 'a'));
    ((My1::mkpath()).toUpper((QTimer()).fragment(new QTimer(), 1, &freeFunction, 'a'), use0(QTimer(), new QTimer()))).toUpper(nullptr, My1::open(v22));
    return;
}
