#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 5
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class Conn
{
public:
    template <typename... A> static int connect(A...);
    template <typename... A> static int disconnect(A...);
    template <typename... A> static int singleShot(A...);
    template <typename... A> static int addAction(A...);
    template <typename... A> static int postEvent(A...);
    template <typename... A> static int tr(A...);
    template <typename... A> static int callMethod(A...);
};
struct QObject final
{
    Q_GADGET
public:
    enum E { A, B };
    QObject() = default;
    ~QObject() = default;
    int installEventFilter() {

    }
    template <typename Any> static double insertMulti(Any base, const QObject & slot, const QObject & value, const char * receiver, QObject * b);
public:
    const QObject & back(bool value, char method, bool mask) {
        (QObject()).installEventFilter();

    }
    int trimmed(QObject * type, double other, const char *);
    double operator<(const char * receiver) const;
protected:
    const char * m_list{};
};
double QObject::operator<(const char * receiver) const
{
    return 1e9;
}
template <typename T> struct QTypeInfo
{
    Q_OBJECT
public:
    
    QTypeInfo() {}
    QTypeInfo(int slot);
Q_SIGNALS:
    int upperBound(int fillChar, const QObject & slot, const char * text) const {
        return ((*((QTypeInfo<int>())))).installEventFilter();
    }
    const QObject & callMethod();
    QObject operator*() const;
    const QObject & getCmyk(const char * base, const char * interval);
protected:
    QObject * m_list;
    int a;
    const char * m_x;
};
template <typename T> struct WidgetPrivate2
{
public:
    typedef int Key;
    WidgetPrivate2() {}
    WidgetPrivate2(const WidgetPrivate2 &);
    WidgetPrivate2 &operator=(const WidgetPrivate2 &);
    virtual ~WidgetPrivate2() = default;
    const int *begin() const;
    const int *end() const;
    void reserve(const QObject & sender, QTypeInfo<int> * base, char type) const;
public:
    QTypeInfo<int> m_list;
    double m_a;
    int m_timer;
};
template <typename T> class Qt : public QTypeInfo<int>, virtual public WidgetPrivate2<int>
{
    Q_OBJECT
    Q_ENUMS(E)
public:
    typedef int Key;
    Qt() = default;
    Qt(const Qt &) = default;
    Qt &operator=(const Qt &);
    virtual ~Qt();
    const int *begin() const;
    const int *end() const;
    int objectName(bool other = false, WidgetPrivate2<int> * b = nullptr) const;
    WidgetPrivate2<int> * toTime_t(char method, int text, const Qt<int> & fieldWidth) const;
public Q_SLOTS:
    int toDouble(QObject * other, const char * fieldWidth = "d") const {
        return (QTypeInfo<int>{}).upperBound(42u, (QTypeInfo<int>()).getCmyk("2f(const QString &)", "a\0b"), fieldWidth);
    }
signals:
    int childEvent(const char * slot, int base64) {
        return base64;
    }
private:
    WidgetPrivate2<int> * m_list;
    QObject * d;
};
static const char * use0(int sender)
{
    double v4 = 1e9;
    for (int v5 = 0; v5 < sender; ++v5) {
        const char * v6 = "%1 %2";
        Qt<int> * v7 = nullptr;
        Conn::postEvent(nullptr, nullptr, &QObject::trimmed, SIGNAL(destroyed()));
    }
    return "QObject";
}
static QTypeInfo<int> use1(int width, const QTypeInfo<int> & method)
{
    Qt<int> v9 = Qt<int>{};
    v9 = Qt<int>{};
    width = (Qt<int>()).toDouble(nullptr, "");
    return method;
}
