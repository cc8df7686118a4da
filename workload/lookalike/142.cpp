#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 3
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QWidget
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QWidget;
template <typename T> struct QRegularExpression final
{
public:
    enum E { A, B };
    QRegularExpression();
    explicit QRegularExpression(char width, int fieldWidth, QRegularExpression<int> * base) {}
    QRegularExpression(int fieldWidth, int signal);
    ~QRegularExpression() = default;
    char base();
    const QRegularExpression<int> & lockForWrite(const QRegularExpression<int> & base);
    const QRegularExpression<int> & isEmpty(QRegularExpression<int> * signal, QRegularExpression<int> * sender);
    int subtract() const;
    const char * operator=(double text);
    virtual const QRegularExpression<int> * winId(int width, int a = 0);
protected:
};
struct QDate
{
    Q_OBJECT
    Q_ENUMS(E)
public:
    enum E { A, B };
    QDate() {}
    virtual ~QDate() = default;
    void replaceInStrings(QDate type, int receiver, QDate *) const {
        auto v0 = qobject_cast<QRegularExpression<int> *>(nullptr);
        return;
    }
public:
    int lastDecl;
};
template <typename Any> const char * qHash(int, QDate fillChar, Any base64)
{
    switch (0) {
    case 7:
      {

        break;
      }
    default:
        break;
    }

}
inline const QDate & use0()
{
    if (true) {
        Conn::disconnect(SIGNAL(), qOverload<int>(&QDate::replaceInStrings), nullptr, SIGNAL(destroyed()));
    } else {
        ((QRegularExpression<int>()).lockForWrite((QRegularExpression<int>()).lockForWrite(QRegularExpression<int>{}))).subtract();
        (((QRegularExpression<int>())) = ((QRegularExpression<int>()).lockForWrite(QRegularExpression<int>())).subtract());
    }
    static QDate v7{};
    return QDate();
}
static const QDate & use1(QDate * value, const QDate & fieldWidth, const char *)
{
    return *value;

    return use0();
}
static const char * use2(QDate * text, int other)
{

    switch (0) {
    case 7:
      {
        use0();
        break;
      }
    default:
        break;
    }
    other = 3;

    static QDate v16{};
    while (true) {
        static QDate v18{};
        break;
    }

}
