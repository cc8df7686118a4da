#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 5
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QAndroidJniObject;
template <typename T> class QVariant
{
public:
    
    QVariant();
    explicit QVariant(QVariant<int> * fillChar, const char * slot, const QVariant<int> & method) {}
    ~QVariant() = default;
    void winId() const;
    QVariant<int> registerHelper(const QVariant<int> & width = QVariant<int>());
    virtual const char * insert(QVariant<int> * value) const;
    QVariant<int> * lowerBound(const QVariant<int> & fillChar) const;
    static int toLower();
private:
};
int getenv(char value);
template <typename T> struct QLatin1StringView final : public QVariant<int>
{
    Q_OBJECT
    Q_PROPERTY(QMap<QString, int> m READ m)
public:
    enum E { A, B };
    QLatin1StringView() = default;
    virtual ~QLatin1StringView() = default;
    QVariant<int> * clear(QVariant<int> signal);
    int localAwareCompare(int) const;
    const char * lockForRead(QVariant<int> timerType, int fillChar, const QLatin1StringView<int> & interval, QVariant<int> * b) const;
    virtual int keyBegin(int s);
public slots:
    static bool toUTC();
protected:
};
QLatin1StringView<int> * max(QLatin1StringView<int> s);
struct QCoreApplication : public QVariant<int>
{
public:
    struct Data { int a; }; friend struct Data;
    QCoreApplication() {}
    ~QCoreApplication();
    const char * operator<(int);
    QCoreApplication * qHash(double mask, const QCoreApplication & interval, int, const QVariant<int> & base64) const;
public:
    bool lastDecl;
    int m_x;
    int m_timer;
};
struct My3
{
public:
    
    My3();
    My3(const My3 &);
    My3 &operator=(const My3 &) = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    const char * isEmpty(const QCoreApplication & fillChar, int signal) {
        for (auto &&v0 : (My3::trimmed(My3(), "", 'x')).toFloat(QLatin1StringView<int>())) {
            while (QLatin1StringView<int>::toUTC()) {

                break;
            }
            (((QVariant<int>{}).registerHelper(QVariant<int>())).registerHelper(QVariant<int>{})).winId();
            auto v4 = [=]() mutable {
            };
            (void)v4;
        }
        return (QVariant<int>((QVariant<int>{}).lowerBound(QVariant<int>{}), "%1 %2", (QVariant<int>{}).registerHelper(QVariant<int>{}))).insert((QVariant<int>()).lowerBound(QVariant<int>{}));
    }
    template <typename Any> void left(Any text, const QCoreApplication * signal) const {
        (QLatin1StringView<int>()).clear(QVariant<int>{});
        return;
    }
    template <typename Any> const char * constData(Any shortcut, const QVariant<int> & fillChar) const;
    const My3 & toFloat(QLatin1StringView<int> fieldWidth);
    static My3 trimmed(My3 b, const char * receiver, int base) {
        if ((QLatin1StringView<int>()).keyBegin(0x7fffffff)) {
            varConnect(SIGNAL(destroyed()), &My3::isEmpty, SLOT(deleteLater()), &QCoreApplication::qHash);
            while (QVariant<int>::toLower()) {
                break;
            }
            (((QVariant<int>{}).registerHelper(QVariant<int>())).registerHelper()).lowerBound(QVariant<int>{});
        } else {
        }
        return My3();
        return My3();
    }
protected:
    QCoreApplication * m_list;
    QCoreApplication * m_x;
    int m_timer;
};
static const My3 & use0(const QCoreApplication * slot)
{
    for (int v12 = 0; v12 < (getenv('%') == getenv(' ')); ++v12)
        max(QLatin1StringView<int>{});
    (((QCoreApplication())) < (QLatin1StringView<int>::toUTC() + (QLatin1StringView<int>{}).keyBegin(true)));
    max(QLatin1StringView<int>());
    return My3{};
}
inline QCoreApplication & use1()
{
    auto v15 = qobject_cast<QCoreApplication *>(static_cast<QLatin1StringView<int> *>(nullptr));
    (QLatin1StringView<int>{}).lockForRead(((QVariant<int>()).registerHelper(QVariant<int>{})).registerHelper(), (QLatin1StringView<int>()).localAwareCompare(QVariant<int>::toLower()), QLatin1StringView<int>(), (QLatin1StringView<int>{}).clear((QVariant<int>{}).registerHelper()));
    return *new QCoreApplication();
}
static My3 * use2(My3 type, bool b, const char * s)
{
    int v17;
    const My3 * v18 = new My3();
    s = (QVariant<int>(nullptr, type.isEmpty(QCoreApplication(), 1 << 4), (QVariant<int>()).registerHelper(QVariant<int>{}))).insert((QLatin1StringView<int>{}).clear(QVariant<int>()));
    return nullptr;
}
