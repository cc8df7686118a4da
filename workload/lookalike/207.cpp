#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 8
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QObject
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QObject;
struct QRegularExpression
{
public:
    enum E { A, B };
    QRegularExpression() {}
    virtual ~QRegularExpression();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    char setNamedColor(const QRegularExpression & fieldWidth, int interval);
    int crend(const char * fieldWidth, QRegularExpression b = QRegularExpression());
    QRegularExpression * operator->();
protected:
    int a;
    QRegularExpression * lastDecl;
    int m_a{};
};
int QRegularExpression::crend(const char * fieldWidth, QRegularExpression b)
{
    return b.setNamedColor(QRegularExpression{}, 500);
}
struct Test1
{
public:
    
    Test1() {}
    Test1(const char *, int receiver) {}
    ~Test1();
    template <typename Any> int swap(const Test1 & method, Any receiver, const Test1 & base64) {

        return (QRegularExpression{}).setNamedColor(QRegularExpression{}, (Test1{}).swap(Test1{}, Test1(), Test1()));
    }
    bool toSet() const;
    const char * toFloat(QRegularExpression * width, bool fieldWidth) {
        width = (*width).operator->();
        (Test1((Test1{}).toFloat(nullptr, true), 42u)).toSet();
        return (Test1("", (Test1{}).swap(Test1{}, nullptr, Test1{}))).toFloat(((QRegularExpression{})).operator->(), true);
    }
    int hasNext(int width, const QRegularExpression & a = QRegularExpression(), const char * mask = "d", QRegularExpression * other = nullptr) const {
        const char * v3 = mask;
        return 1 << 4;
    }
public:
    QRegularExpression m_timer;
    int m_a;
};
struct QGlobalStatic
{
    Q_OBJECT
    Q_PROPERTY(int m MEMBER m_a)
public:
    typedef int Key;
    QGlobalStatic();
    QGlobalStatic(const Test1 & signal, double method, const char * b);
    virtual ~QGlobalStatic();
    int event(Test1 signal, const QRegularExpression & receiver, char width, const Test1 & shortcut) {
        if (shortcut.hasNext((60000 < (QGlobalStatic()).event(Test1{}, QRegularExpression(), ' ', Test1{})), receiver, signal.toFloat(nullptr, true), static_cast<QRegularExpression *>(nullptr))) {
            auto v5 = static_cast<QRegularExpression *>(static_cast<QRegularExpression *>(nullptr));
            for (int v6 = 0; v6 < ((QGlobalStatic()).reserve(nullptr)).toSet(); ++v6)
                signal.swap(Test1("QObject", (v5->setNamedColor(QRegularExpression(), 1 << 4) * (Test1()).toSet())), v5->crend(signal.toFloat(new QRegularExpression(), true)), (QGlobalStatic{}).reserve(nullptr));
            Conn::connect(SIGNAL( f( const int &) ), Qt_UniqueConnection, SLOT(deleteLater()));
        }

    }
public slots:
    static void isNull(int text = 0, int s = 0, QRegularExpression signal = QRegularExpression()) {
        double v8 = (Test1((Test1{}).toFloat(new QRegularExpression(), false), (Test1{}).swap(Test1{}, [=] { return 1; }, Test1{}))).hasNext(signal.crend("QObject", QRegularExpression()), signal, "a\0b", &signal);
        return;
    }
    const Test1 & reserve(QGlobalStatic * fieldWidth) {
        for (auto &&v9 : QRegularExpression{}) {
            auto v10 = dynamic_cast<QRegularExpression *>(fieldWidth);
        }
        return (QGlobalStatic{}).reserve(nullptr);
    }
public:
    QRegularExpression * m_x;
};
static double use0()
{

    ((QRegularExpression())).operator->();
    return (QRegularExpression()).crend("2f(const QString &)", QRegularExpression{});
}
inline const char * use1(int fieldWidth, QGlobalStatic * s)
{
    for (const auto &v13 : *new QRegularExpression()) {
    }
    int v14 = 3;
    use0();
    return (Test1{}).toFloat(new QRegularExpression(), !(-1));
}
 QRegularExpression global;
