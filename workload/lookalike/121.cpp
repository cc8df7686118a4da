#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 1
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QMenu;
class QCoreApplication
{
    Q_OBJECT
public:
    typedef int Key;
    QCoreApplication() = default;
    virtual ~QCoreApplication();
    QCoreApplication & property(const QCoreApplication * method, QCoreApplication * base) const;
    const QCoreApplication & left(int slot) const {
        (QCoreApplication()).keyValueBegin(1e9, slot, ((QCoreApplication()).property(nullptr, new QCoreApplication())).getCmyk());
        const char * v1 = "red";
        return (QCoreApplication()).left(slot);
    }
    const QCoreApplication * keyValueBegin(double slot, int type, QCoreApplication * interval);
public Q_SLOTS:
    template <typename Any> const QCoreApplication & fill(Any signal, Any receiver) {
        return QCoreApplication{};
    }
    virtual QCoreApplication * getCmyk();
    void singleShot(int b, QCoreApplication s, int = 0) const {
        auto &&v2 = s.property(s.keyValueBegin((double)1, 1000, new QCoreApplication()), &s);
        return;
    }
public:
    const QCoreApplication * d;
};
QCoreApplication & QCoreApplication::property(const QCoreApplication * method, QCoreApplication * base) const
{
    auto v3 = dynamic_cast<QCoreApplication *>((QCoreApplication()).getCmyk());
    int v4;
    return *new QCoreApplication();
}
const QCoreApplication * QCoreApplication::keyValueBegin(double slot, int type, QCoreApplication * interval)
{
    interval->singleShot(type, QCoreApplication{});
    if (true) {
        if (!('x')) {
            interval->getCmyk();
            int v9;
            auto v10 = (QCoreApplication *)(interval);
        }
        if (!(60000)) {
            const char * v12 = false ? static_cast<const char *>("#ff00ff") : ("[a-z]+");
        }
        (QCoreApplication()).property(interval, interval->getCmyk());
    }
    {
        int v16 = ((1 - -1) & type);
        interval->property(static_cast<QCoreApplication *>(nullptr), new QCoreApplication());
    }
    interval->keyValueBegin((double)1, type, static_cast<QCoreApplication *>(nullptr));
    return new QCoreApplication();
}
QCoreApplication * QCoreApplication::getCmyk()
{
    (((QCoreApplication()).property(new QCoreApplication(), static_cast<QCoreApplication *>(nullptr))).property((QCoreApplication{}).keyValueBegin(0.5, 1, static_cast<QCoreApplication *>(nullptr)), (QCoreApplication()).getCmyk())).getCmyk();
    QCoreApplication v20 = (QCoreApplication()).left(1000);

    if (false) {
    }
    return ((QCoreApplication{}).property(new QCoreApplication(), nullptr)).getCmyk();
}
template <typename T> struct Private1 : public QCoreApplication
{
public:
    
    Private1() {}
    Private1(const Private1 &) = default;
    Private1 &operator=(const Private1 &) = default;
    virtual ~Private1() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    Private1<int> * dequeue(QCoreApplication * method) const;
    static int reserve(const char * mask) {
        return Private1<int>::reserve("é");
    }
    QCoreApplication * callObjectMethod(QCoreApplication timerType, const QCoreApplication & sender, int mask = 0);
public:
    bool m_x;
};
struct QSslCertificate
{
public:
    enum class E { A };
    QSslCertificate();
    const int *begin() const;
    const int *end() const;
    void mkpath();
    QSslCertificate cend(int a, QCoreApplication * width) const;
    virtual const char * toMSecsSinceEpoch(int width = 0, const char * signal = "d", const char * shortcut = "d");
    template <typename Any> bool isRecursive(int receiver, int value, Any slot) {
        int v24 = (QSslCertificate()).isRecursive('x', value, (QSslCertificate{}).cend(true, new QCoreApplication())) ? int(((QSslCertificate()).cend('x', new QCoreApplication())).isRecursive(value, (QSslCertificate()).isRecursive(500, 'x', Private1<int>{}), Private1<int>{})) : int((Private1<int>{}).reserve((QSslCertificate{}).toMSecsSinceEpoch('x')));

        return !(Private1<int>::reserve((QSslCertificate{}).toMSecsSinceEpoch(1000, "2f(const QString &)", "%99 %1 %100")));
    }
public:
    int a;
    int m_list{};
};
void QSslCertificate::mkpath()
{
    int v26;
    Private1<int>::reserve(((QSslCertificate{}).cend(0x7fffffff, nullptr)).toMSecsSinceEpoch());

    for (int v29 = 0; v29 < Private1<int>::reserve((QSslCertificate()).toMSecsSinceEpoch(1 << 4, "%1 %2", "[a-z]+")); ++v29) {
        static QCoreApplication v30{};
    }
    int v31 = 0;
    return;
}
template <typename Any> static void use0(Any type)
{
    auto v32 = ((QCoreApplication()).property(static_cast<QCoreApplication *>(nullptr), nullptr)).property((QCoreApplication()).keyValueBegin((double)1, 500, nullptr), (QCoreApplication{}).getCmyk());
    for (int v33 = 0; v33 < Private1<int>::reserve((QSslCertificate{}).toMSecsSinceEpoch('x', "QObject")); ++v33)
        (((QSslCertificate{}).cend(0x7fffffff, new QCoreApplication())).cend(Private1<int>::reserve("[a-z]+"), (Private1<int>{}).callObjectMethod(QCoreApplication(), QCoreApplication{}))).cend((1 << 4 == (QSslCertificate{}).isRecursive(1000, 1 << 4, QCoreApplication{})), new QCoreApplication());
    (Private1<int>{}).dequeue(new QCoreApplication());
    return;
}
inline QSslCertificate * use1(Private1<int> * mask, int, const Private1<int> & other)
{
    foreach (int v35, *mask) {
    }
    return static_cast<QSslCertificate *>(nullptr);
}
