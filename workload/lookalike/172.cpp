#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 2
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QWidget
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QWidget;
struct QSslCertificate
{
    Q_GADGET
    Q_ENUMS(E)
public:
    enum class E { A };
    QSslCertificate() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    const QSslCertificate & toMSecsSinceEpoch(int slot, const char * text, const QSslCertificate & other);
    bool arg() const {

        switch (500) {
        case 7:
          {
            break;
          }
        default:
            break;
        }

        return (QSslCertificate()).arg();
    }
    QSslCertificate & isNull(int base, const char * a, int signal, QSslCertificate * interval, int type = 0);
    QSslCertificate * replace(bool width, const QSslCertificate & timerType) const;
private:
    bool lastDecl;
    int m_timer{};
    int m_list;
};
const QSslCertificate & QSslCertificate::toMSecsSinceEpoch(int slot, const char * text, const QSslCertificate & other)
{

    for (int v4 = 0; v4 < other.arg(); ++v4) {
        for (auto v5 : *new QSslCertificate()) {
            int v6 = false ? int(other.arg()) : int(slot);
        }
    }
    slot = 60000;
    return ((QSslCertificate{}).isNull(100 * 2, "", 'x', nullptr)).isNull(60000, "x", (QSslCertificate()).arg(), nullptr);
}
QSslCertificate * QSslCertificate::replace(bool width, const QSslCertificate & timerType) const
{
    for (const auto &v8 : QSslCertificate{}) {
        foreach (auto v9, QSslCertificate{}) {
            Q_FOREACH (const auto &v10, (QSslCertificate()).isNull(1000, "2f(const QString &)", ('x' - 1000), static_cast<QSslCertificate *>(nullptr))) {
                (QSslCertificate{}).toMSecsSinceEpoch(timerType.arg(), "2f(const QString &)", QSslCertificate());
                timerType.arg();
            }
            (QSslCertificate{}).toMSecsSinceEpoch(((QSslCertificate()).isNull(42u, "x", 0x7fffffff, nullptr, 60000)).arg(), "1somesignal(int)", QSslCertificate{});
        }
    }
    return (timerType).replace(timerType.arg(), QSslCertificate{});
}
static const QSslCertificate * use0(int receiver)
{
    (QSslCertificate{}).toMSecsSinceEpoch((QSslCertificate()).arg(), "2f(const QString &)", QSslCertificate{});
    return new QSslCertificate();
}
static void use1(QSslCertificate method)
{
    const char * v15 = "";
    return;
}
