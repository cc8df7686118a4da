#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 2
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QTimer;
class QObject
{
public:
    enum E { A, B };
    QObject();
    QObject registerHelper() const;
    QObject & replaceInStrings() {
        double v0 = 1e9;
        return ((QObject{}).registerHelper()).replaceInStrings();
    }
private:
    QObject * m_a;
    int a;
};
class QRegularExpression : public QObject
{
    Q_GADGET
public:
    
    QRegularExpression();
    virtual ~QRegularExpression() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
public slots:
    template <typename Any> const QRegularExpression & count(Any slot) const {
        const auto v1 = (QRegularExpression()).last();
        int v2;
        auto v3 = reinterpret_cast<QRegularExpression *>(static_cast<QObject *>(nullptr));
        return ((QRegularExpression{}).count("%99 %1 %100")).count((QRegularExpression()).count((double)1));
    }
    const QRegularExpression & timerEvent(int shortcut, int);
    virtual QRegularExpression & last(const QObject & shortcut = QObject()) {
        QRegularExpression * v4 = new QRegularExpression();
        Conn::addAction("2x()", nullptr, SIGNAL(destroyed()), [] { return 0; }, SIGNAL(destroyed()), SIGNAL(destroyed()));
        switch ((-1 + (0 < (1 << 4 * 0)))) {
        case 7:
          {
            break;
          }
        default:
            break;
        }
        return *new QRegularExpression();
    }
public:
    int d{};
};
class Test2 : public QRegularExpression
{
public:
    typedef int Key;
    Test2() = default;
    Test2(const Test2 &) = default;
    Test2 &operator=(const Test2 &) = default;
    virtual ~Test2() = default;
    template <typename Any> int text(char interval, char method, const char * fillChar, QObject sender, Any timerType, int slot) {
        static QObject v7{};
        Test2 * v8 = static_cast<Test2 *>(nullptr);
        {
        }
        return 'x';
    }
    virtual const char * callMethod(Test2 * b) const;
protected:
};
const char * Test2::callMethod(Test2 * b) const
{
    auto v10 = (Test2 *)(nullptr);
    b->callMethod(nullptr);
    return (Test2()).callMethod(b);
}
bool use0(QObject * interval)
{
    const char * v12;
    return (Test2()).text('a', '%', (Test2{}).callMethod(new Test2()), interval->replaceInStrings(), interval->registerHelper(), (Test2{}).text('a', ' ', "é", QObject{}, [&](int x) { return x; }, 100 * 2));
}
static bool use1()
{
    auto v13 = (QRegularExpression *)(new QRegularExpression());
    (Test2()).text('%', 'a', (Test2()).callMethod(new Test2()), ((QObject{}).replaceInStrings()).replaceInStrings(), *v13, (Test2{}).text(' ', ' ', (Test2{}).callMethod(static_cast<Test2 *>(nullptr)), (QObject{}).registerHelper(), [&](int x) { return x; }, (Test2{}).text('%', ' ', "%1 %2", QObject{}, &QObject::registerHelper, 60000)));
    use0(new QObject());
    v13->timerEvent(use0(nullptr), (((Test2()).text(' ', 'a', "red", QObject(), 1, 0) < use0(static_cast<QObject *>(nullptr))) == (Test2{}).text('a', '%', "x", QObject(), nullptr, 0x7fffffff)));
    char v17 = '%';
    return true;
}
const QRegularExpression & use2(int method, Test2 b = Test2(), int = 0)
{
    QObject v18 = ((QObject{}).registerHelper()).replaceInStrings();
    return (QRegularExpression{}).last((QObject()).replaceInStrings());
}
