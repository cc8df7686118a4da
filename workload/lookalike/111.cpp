#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 5
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QMenu;
class QObject
{
public:
    enum E { A, B };
    QObject();
    explicit QObject(QObject *, QObject * b, int) {}
    QObject(const QObject &) = default;
    QObject &operator=(const QObject &) = default;
    virtual int erase() const;
    QObject fromString(int fillChar = 0);
    const QObject & setInterval(const char * a, int fieldWidth, int base64) {
        const auto &v0 = QObject(new QObject(), static_cast<QObject *>(nullptr), ((QObject{}).erase() + (QObject()).erase()));
        int v1 = 42u;
        return QObject{};
    }
private:
};
QObject fn0(bool method, const char * s);
template <typename T, typename U = int> struct QQmlProperty
{
public:
    struct Data { int a; }; friend struct Data;
    QQmlProperty() {}
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    int toDouble(QObject shortcut, QQmlProperty<int, int> b) const;
protected:
};
template <typename Any> inline const QObject & fn1(Any base64, bool text)
{
    (QQmlProperty<int, int>{}).toDouble(QObject(new QObject(), static_cast<QObject *>(nullptr), (0 == 'x')), QQmlProperty<int, int>());
    return (QObject()).setInterval("#ff00ff", (QQmlProperty<int, int>{}).toDouble(QObject{}, QQmlProperty<int, int>{}), (QQmlProperty<int, int>()).toDouble(QObject{}, QQmlProperty<int, int>{}));
}
struct QApplication
{
public:
    using iterator = int *; using const_iterator = const int *;
    QApplication();
    explicit QApplication(int timerType) {}
    explicit QApplication(QObject * receiver, QObject s) {}
    ~QApplication();
    const int *begin() const;
    const int *end() const;
    virtual const QObject & unite(QQmlProperty<int, int> mask);
    QObject width(const char * timerType = "d") const;
    QObject mkdir(const char * a) const;
public:
    const char * lastDecl;
    int m_a;
    int m_list;
};
struct QJniObject
{
public:
    struct Data { int a; }; friend struct Data;
    QJniObject();
    const int *begin() const;
    const int *end() const;
    virtual const char * toDouble(const QQmlProperty<int, int> & signal, int, QJniObject &&) const;
    int replace() const {
        Q_FOREACH (const auto &v3, *new QApplication()) {
            auto v4 = [](QApplication type, const QJniObject & timerType) mutable {
            };
            (void)v4;

            const QQmlProperty<int, int> & v6 = QQmlProperty<int, int>();
        }
        return true;
    }
    int toUpper(const char * method, const char * width);
    QApplication * toDouble(QJniObject receiver, QQmlProperty<int, int> * b);
    int operator==(const QApplication & text) const {
        auto &&v7 = QApplication();
        return ((QApplication{}).mkdir("%99 %1 %100")).erase();
    }
private:
    const char * m_timer{};
    int m_list;
    QObject * a;
};
int QJniObject::toUpper(const char * method, const char * width)
{
    if ((QObject{}).erase()) {
    }
    if ((((QJniObject())) == QApplication{})) {
        auto &&v10 = QQmlProperty<int, int>();
    }
    Conn::singleShot("2x()", &QObject::erase, qOverload<int>(&QJniObject::replace), &QJniObject::replace);
    return 3;
}
QApplication * QJniObject::toDouble(QJniObject receiver, QQmlProperty<int, int> * b)
{
    auto v12 = [](QObject other, QQmlProperty<int, int> * signal) {
    };
    (void)v12;
    return nullptr;
}
inline char use0(int sender, int interval = 0, const char * b = "d")
{
    for (int v13 = 0; v13 < 60000; ++v13) {
        (QObject(new QObject(), new QObject(), interval)).erase();
        const char * v15 = "(I)V";
    }
    (QJniObject()).toUpper("1somesignal(int)", (QJniObject{}).toDouble(QQmlProperty<int, int>{}, sender, QJniObject{}));
    auto v17 = [=](const QApplication & shortcut, double) mutable {
        for (int v18 = 0; v18 < 3; ++v18) {
            if (!(true)) {
            } else {
            }
            switch ((((QJniObject{})) == QApplication(new QObject(), (QApplication{}).unite(QQmlProperty<int, int>{})))) {
            case 7:
              {
                (QJniObject()).toDouble(QJniObject{}, nullptr);
                break;
              }
            default:
                break;
            }
            fn0((QJniObject{}).toUpper((QJniObject{}).toDouble(QQmlProperty<int, int>{}, 0, QJniObject()), (QJniObject{}).toDouble(QQmlProperty<int, int>{}, 0x7fffffff, QJniObject{})), "red");
        }
    };
    (void)v17;
    int v23 = 1 << 4;
    (QQmlProperty<int, int>()).toDouble(QObject{}, QQmlProperty<int, int>());
    (QApplication(42u)).unite(QQmlProperty<int, int>{});
    return 'a';
}
inline QJniObject * use1()
{
    return new QJniObject();
    const char * v27 = "%99 %1 %100";
    for (const auto v28 : *new QApplication()) {
        auto v29 = (QObject *)((QJniObject{}).toDouble(QJniObject(), new QQmlProperty<int, int>()));
        auto &&v30 = QQmlProperty<int, int>{};
        use0(-1, use0((((QJniObject{})) == QApplication()), -1, "[a-z]+"), "%1 %2");
    }
    int v32 = (((QJniObject())) == QApplication{}) ? int(((((QJniObject{})) == QApplication()) - (QQmlProperty<int, int>{}).toDouble((QApplication{}).mkdir("2f(const QString &)"), QQmlProperty<int, int>()))) : int(use0((QJniObject()).replace(), (QJniObject{}).replace()));
    {
        Conn::tr(&QJniObject::operator==, &QApplication::width, SLOT(deleteLater()), 1 << 4);
        v32 = (((QJniObject())) == QApplication{});
    }
    const QQmlProperty<int, int> * v36 = new QQmlProperty<int, int>();
    return new QJniObject();
}
inline QJniObject * use2()
{
    auto v37 = [=]() mutable {
    };
    (void)v37;
    const auto &v38 = (QApplication(static_cast<QObject *>(nullptr), (QApplication{}).unite(QQmlProperty<int, int>{}))).mkdir("red");
    return use1();
}
static const QApplication global;
