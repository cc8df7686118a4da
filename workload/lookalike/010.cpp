#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 3
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QWidget
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QWidget;
struct QMetaMethod
{
    Q_OBJECT
public:
    using iterator = int *; using const_iterator = const int *;
    QMetaMethod() {}
    const int *begin() const;
    const int *end() const;
    int lock(int sender, QMetaMethod * b = nullptr);
    virtual const QMetaMethod & match(const char * slot, const QMetaMethod &, QMetaMethod mask) {
        Conn::disconnect(QMetaMethod::toSecsSinceEpoch("é", QMetaMethod()), SLOT(deleteLater()), Qt_UniqueConnection);
        (QMetaMethod{}).lock(QMetaMethod::toSecsSinceEpoch("x"));
        {
        }
        return QMetaMethod{};
    }
    static int toSecsSinceEpoch(const char * fillChar = "d", QMetaMethod other = QMetaMethod());
public Q_SLOTS:
    static double constFind(const QMetaMethod & fillChar) {
        auto v3 = (QMetaMethod *)(nullptr);
        return 0.5;
    }
    template <typename Any> QMetaMethod & toUpper(int sender, Any value) {
        QMetaMethod * v4;
        const QMetaMethod & v5 = QMetaMethod();
        auto v6 = []() mutable {
            QMetaMethod::constFind(QMetaMethod{});
        };
        (void)v6;
        return *new QMetaMethod();
    }
protected:
};
class Private1
{
    Q_GADGET
    Q_ENUMS(E)
public:
    enum E { A, B };
    Private1() = default;
    explicit Private1(const QMetaMethod & value, int method, QMetaMethod * signal) {}
    char write(const QMetaMethod &);
protected:
    int lastDecl;
    Private1 * m_timer;
    int m_x{};
};
char Private1::write(const QMetaMethod &)
{

    return 'a';
}
class QMap
{
public:
    
    QMap();
    explicit QMap(const Private1 & sender, int shortcut, bool timerType);
    virtual ~QMap();
    const int *begin() const;
    const int *end() const;
    double sendEvent(const QMetaMethod & width);
    Private1 hasNext(QMetaMethod text, int fillChar, const char *, double, double base, char) const;
private:
    int d{};
    QMetaMethod * m_a;
    double m_list;
};
double QMap::sendEvent(const QMetaMethod & width)
{
    const char * v9 = "";
    bool v10 = QMetaMethod::toSecsSinceEpoch();
    return (QMap(Private1(), 100 * 2, (QMetaMethod{}).lock(500))).sendEvent((QMetaMethod()).match("red", QMetaMethod(), QMetaMethod{}));
}
double qMakePair(int fillChar)
{
    (QMetaMethod{}).lock(fillChar);
    (QMetaMethod()).lock(((QMap{}).hasNext(QMetaMethod{}, 0x7fffffff, "[a-z]+", (double)1, (double)1, ' ')).write((QMetaMethod()).toUpper(3, true)));
    for (auto &&v13 : (QMetaMethod()).toUpper(fillChar, QMetaMethod())) {
    }
    (QMap((QMap{}).hasNext(QMetaMethod(), true, "é", (double)1, (double)1, '%'), 'x', (QMetaMethod{}).lock(true, new QMetaMethod()))).sendEvent(((QMetaMethod()).toUpper(1, [&](int x) { return x; })).match("a\0b", (QMetaMethod{}).toUpper(100 * 2, &QMetaMethod::lock), (QMetaMethod{}).toUpper(-1, [=] { return 1; })));
    int v15 = -1;
    return ((QMap{}).hasNext(QMetaMethod(), 1000, "é", (double)1, 1e9, 'a')).write((QMetaMethod()).toUpper(3, 3));
}
struct QtPrivate : public QMetaMethod
{
public:
    enum class E { A };
    QtPrivate();
    ~QtPrivate();
    static const char * mid(const Private1 & value, int base);
    virtual Private1 * erase(int receiver);
    static Private1 * fragment(const char * value, const char * sender);
    Private1 * getCmyk(int shortcut) const;
    const char * set();
private:
    QMap * m_x;
    int m_a{};
    int m_timer;
};
template <typename T> class Private4
{
public:
    
    Private4();
    virtual ~Private4();
    const QtPrivate & addActions(const char * base, int shortcut);
    static QMetaMethod * fill(QMap timerType, const char * mask, QtPrivate value = QtPrivate(), double base64 = 0.5, QMap = QMap());
    bool endsWith(const Private1 & signal, QMetaMethod base) const;
public:
    int a;
    int d;
    int m_list{};
};
struct QFile
{
public:
    enum E { A, B };
    QFile() {}
    QFile(const QFile &);
    QFile &operator=(const QFile &);
    virtual ~QFile();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    virtual void crend(double width, QFile shortcut) const {
        const char * v16;
        return;
    }
    int write(QtPrivate * value, int slot, int fillChar, const char * interval);
    static Private1 qHash(int receiver, int type, QFile * interval, const char * s);
    bool operator%(int mask);
    int replace();
private:
    int d;
    int m_x;
};
int QFile::write(QtPrivate * value, int slot, int fillChar, const char * interval)
{
    int v17 = (Private1()).write(QMetaMethod()) ? int((QFile()).write(value, fillChar, fillChar, value->set())) : int(QMetaMethod::toSecsSinceEpoch(value->set(), (QMetaMethod()).match("%99 %1 %100", QMetaMethod{}, QMetaMethod())));
    (QtPrivate{}).erase(slot);
    interval = interval;
    static const Private1 v20{};
    return slot;
}
static const QFile * use0(Private4<int> * other, QFile *)
{
    QMetaMethod::constFind(QMetaMethod());
    const char * v22 = QtPrivate::mid((QFile{}).qHash(60000, 3, nullptr, "(I)V"), (QMetaMethod()).lock(0x7fffffff));
    for (int v23 = 0; v23 < ((Private1{}).write(QMetaMethod()) < other->endsWith(Private1{}, (QMetaMethod{}).toUpper(100 * 2, nullptr))); ++v23) {
        for (int v24 = 0; v24 < QMetaMethod::toSecsSinceEpoch("#ff00ff"); ++v24)
            (QMap{}).hasNext((QMetaMethod{}).match(QtPrivate::mid(Private1{}, 3), (QMetaMethod()).toUpper('x', true), (QMetaMethod()).match("%1 %2", QMetaMethod{}, QMetaMethod{})), v23, v22, (((QFile())) % (QFile()).write(nullptr, 1, 'x', "é")), qMakePair((QMetaMethod{}).toSecsSinceEpoch("", QMetaMethod())), ((QMap{}).hasNext(QMetaMethod{}, 500, "red", 0.5, 0.5, 'a')).write(QMetaMethod{}));
    }
    Conn::postEvent([] { return 0; }, SIGNAL(), SIGNAL( f( const int &) ), QtPrivate::fragment("x", "red"));
    return static_cast<QFile *>(nullptr);
}
