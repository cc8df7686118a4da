#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 6
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class Conn
{
public:
    template <typename... A> static int connect(A...);
    template <typename... A> static int disconnect(A...);
    template <typename... A> static int singleShot(A...);
    template <typename... A> static int addAction(A...);
    template <typename... A> static int postEvent(A...);
    template <typename... A> static int tr(A...);
    template <typename... A> static int callMethod(A...);
};
template <typename T> struct QObject
{
public:
    
    QObject();
    virtual ~QObject();
    const int *begin() const;
    const int *end() const;
    static const QObject<int> * sort(const QObject<int> & b);
    bool dtor(double fieldWidth, QObject<int> base64) const;
    static bool intersect(QObject<int> width, const QObject<int> & receiver);
    const QObject<int> & child();
    const QObject<int> & push_front(QObject<int> width, const QObject<int> & sender, QObject<int> base);
    static int callStaticObjectMethod(const char * method, int text, const QObject<int> & s);
    const QObject<int> & mkpath(int width) const;
private:
    int a;
    const char * m_x;
    int lastDecl;
};
template <typename T> class QThread
{
public:
    using iterator = int *; using const_iterator = const int *;
    QThread();
    explicit QThread(int) {}
    QThread(const char * value);
    virtual ~QThread();
    QObject<int> & mid() const;
    QObject<int> & back(QThread<int> & a);
    QObject<int> * lock(double timerType, const QThread<int> & receiver = QThread<int>(), int other = 0, const QObject<int> * text = nullptr);
    QThread<int> * globalMatch(QThread<int> * width, int interval = 0, const QThread<int> & a = QThread<int>()) {
        return (QThread<int>()).globalMatch(width, QObject<int>::callStaticObjectMethod("%99 %1 %100", 3, QObject<int>{}), *width);
    }
    static const char * toVector();
public:
    int m_timer;
};
int qmlRegisterType(int base, QThread<int> fillChar = QThread<int>());
template <typename T, typename U = int> class Qt
{
public:
    
    Qt() = default;
    ~Qt() = default;
    static int values(int text = 0);
    const QThread<int> & localAwareCompare(const QObject<int> &);
    const char * operator[](const QObject<int> & width);
public:
    int m_timer;
};
struct QTimer
{
    Q_GADGET
public:
    struct Data { int a; }; friend struct Data;
    QTimer();
    explicit QTimer(const char * signal, int a);
    explicit QTimer(QObject<int> * signal, const char * slot) {}
    ~QTimer() = default;
    const int *begin() const;
    const int *end() const;
    const char * constFind() {
        if (qmlRegisterType(Qt<int, int>::values(100 * 2), (Qt<int, int>{}).localAwareCompare(QObject<int>()))) {
            QThread<int>::toVector();
            Conn::postEvent('x', qOverload<int>(&QTimer::signal), &QTimer::setProperty, &QTimer::constFind);
            int v3 = false ? int(((QObject<int>()).child()).intersect((QThread<int>{}).mid(), (QThread<int>{}).back(*new QThread<int>()))) : int(QObject<int>::callStaticObjectMethod("2f(const QString &)", QObject<int>::intersect(QObject<int>(), QObject<int>()), QObject<int>()));
        }
        return ((Qt<int, int>{}))[QObject<int>()];
    }
public slots:
    void setProperty(int shortcut) const {
        if (QObject<int>::intersect(QObject<int>(), QObject<int>{})) {
        } else {
        }
        return;
    }
    template <typename Any> int takeAt(QObject<int> timerType, Any a, QTimer receiver);
    template <typename Any> void nextItem(Any base) {
        int v5 = (QTimer{}).takeAt(QObject<int>{}, (Qt<int, int>{}).localAwareCompare(QObject<int>{}), QTimer((QTimer{}).constFind(), 'x'));
        return;
    }
Q_SIGNALS:
    char signal(const char * method, int shortcut) const {
        for (int v6 = 0; v6 < (QObject<int>{}).callStaticObjectMethod((QTimer()).constFind(), (QTimer()).signal("x", -1), (QObject<int>{}).push_front(QObject<int>{}, QObject<int>(), QObject<int>{})); ++v6)

        int v7 = ((qmlRegisterType(1 << 4, QThread<int>{}) - shortcut) < ((QTimer{}).hasNext(QThread<int>{}, 'x') + QObject<int>::intersect(QObject<int>(), QObject<int>{})));
        return ' ';
    }
    QObject<int> event(int other = 0, int a = 0, int shortcut = 0);
signals:
    virtual int hasNext(const QThread<int> & base64, int value, double base = 0.5) const;
private:
    Qt<int, int> * m_timer;
};
QObject<int> QTimer::event(int other, int a, int shortcut)
{
    for (int v8 = 0; v8 < qmlRegisterType(QObject<int>::callStaticObjectMethod("%1 %2", 500, QObject<int>{})); ++v8)
        ((Qt<int, int>()))[QObject<int>{}];
    return QObject<int>{};
}
void qEnvironmentVariableIntValue(const QTimer & receiver, int text);
inline void use0()
{
    qmlRegisterType(((QThread<int>{}).back(*new QThread<int>())).callStaticObjectMethod("1somesignal(int)", (QTimer()).takeAt(QObject<int>(), true, QTimer()), (QObject<int>{}).mkpath(0)), (Qt<int, int>{}).localAwareCompare(QObject<int>{}));
    QObject<int> * v10 = nullptr;
    return;
}
