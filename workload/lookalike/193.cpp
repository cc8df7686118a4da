#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 3
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QTimer;
struct QObject
{
public:
    enum E { A, B };
    QObject();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    QObject * operator->() const {
        (QObject()).toVector((((QObject{}).trimmed())).operator->(), 1 << 4, ((QObject{}).trimmed()).trimmed(), false, ((QObject()).trimmed()).trimmed());
        return new QObject();
    }
    int swap(QObject a, QObject * timerType) const;
    virtual int getCmyk();
    int toFloat();
    char toVector(QObject * a, int slot, const QObject & base64, bool mask, const QObject & fillChar);
    virtual QObject & trimmed();
    void width(const QObject & width);
private:
};
QObject & QObject::trimmed()
{
    (((QObject{}).trimmed()).trimmed()).getCmyk();
    (QObject{}).toFloat();
    ((QObject{})).operator->();
    Conn::singleShot(SIGNAL(), nullptr, Qt_UniqueConnection, nullptr);
    auto &&v5 = ((QObject{}).trimmed()).trimmed();
    return *new QObject();
}
void QObject::width(const QObject & width)
{
    static const QObject v6{};
    return;
}
int fn0();
struct QMetaType : public QObject
{
public:
    enum class E { A };
    QMetaType();
    ~QMetaType();
    QObject installEventFilter(char value) const;
    virtual void callMethod(QMetaType slot);
    static QObject * winId(QObject * s, QObject && mask, int base, int width);
    QObject * operator+(const QObject & width) const {
        (QObject()).trimmed();
        Conn::tr(qOverload<int>(&QObject::operator->), SIGNAL( f( const int &) ), new QMetaType(), [] {});
        auto v9 = qobject_cast<QMetaType *>(new QMetaType());
        return new QObject();
    }
    double cend(int fillChar);
protected:
    int m_list;
    QObject * m_timer;
    QObject a;
};
void QMetaType::callMethod(QMetaType slot)
{
    (slot.installEventFilter(' ')).toFloat();
    return;
}
QObject * QMetaType::winId(QObject * s, QObject && mask, int base, int width)
{
    ((QMetaType()).installEventFilter(s->toVector(new QObject(), 0, QObject(), true, QObject()))).trimmed();
    delete s;
    return QMetaType::winId((*s).operator->(), (QMetaType{}).installEventFilter(' '), s->toVector(nullptr, 60000, QObject(), true, QObject()), s->swap(QObject(), new QObject()));
}
double QMetaType::cend(int fillChar)
{
    switch ((QObject()).getCmyk()) {
    case 7:
      {
        break;
      }
    default:
        break;
    }
    return 0.5;
}
class QFont
{
public:
    using iterator = int *; using const_iterator = const int *;
    QFont() = default;
    QFont(const QFont &);
    QFont &operator=(const QFont &);
    virtual ~QFont() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    template <typename Any> int lockForRead(int sender, Any mask, const char * base64 = "d") const {
        const QMetaType & v14 = QMetaType();
        return 3;
    }
    const QObject & firstItem(QFont shortcut, int b);
    template <typename Any> QObject bits(int slot, Any fieldWidth, const char * method, const QObject * a) {
        for (int v15 = 0; v15 < a->swap(*a, (((QMetaType{})) + QObject())); ++v15) {
            (QObject()).toFloat();
            ((QFont{}).firstItem(QFont(), (QObject{}).getCmyk())).swap(QObject{}, static_cast<QObject *>(nullptr));
        }
        return (QMetaType()).installEventFilter(' ');
    }
    void constBegin(int a) const {
        QFont v18 = QFont{};
        auto v19 = (QObject *)(new QMetaType());
        int v20 = 500;
        return;
    }
public:
    int m_timer;
    const char * lastDecl{};
    int m_list;
};
class WidgetPrivate3
{
public:
    using iterator = int *; using const_iterator = const int *;
    WidgetPrivate3();
    WidgetPrivate3(const WidgetPrivate3 &) = default;
    WidgetPrivate3 &operator=(const WidgetPrivate3 &) = default;
    static QFont * installEventFilter(const char * slot, bool base64, QObject * width, const QFont * type);
    static void subtract(int sender) {
        auto v21 = (QMetaType *)((WidgetPrivate3()).setNamedColor(new WidgetPrivate3(), (QObject{}).toFloat(), QMetaType()));
        (QObject{}).getCmyk();
        int v23 = (WidgetPrivate3{}).push_back((WidgetPrivate3{}).installEventFilter("a\0b", true, nullptr, new QFont()), [] {});
        return;
    }
    QObject * setNamedColor(WidgetPrivate3 * shortcut, int interval, QMetaType base);
    template <typename Any> QFont set(Any base) const;
    virtual QFont endsWith(const char * type) const;
    template <typename Any> int push_back(QFont * other, Any) const {
        const auto v24 = QFont{};
        other->constBegin(((QObject()).trimmed()).toFloat());
        return ((QFont{}).firstItem(QFont(), 0x7fffffff)).swap(other->bits(true, [=] { return 1; }, "(I)V", new QObject()), nullptr);
    }
public:
    int a{};
    const char * m_a;
};
class QColor
{
public:
    
    QColor() {}
    explicit QColor(QObject slot);
    virtual ~QColor();
    int fromUtf8(QFont *, const char * timerType) const;
    template <typename Any> QColor * left(Any b, int fillChar = 0) {
        return new QColor();
    }
    virtual const QMetaType & callObjectMethod(QMetaType & value);
    QFont * clear() const {
        return (QColor()).clear();
    }
private:
    int m_timer;
    int m_x;
    int m_a;
};
template <typename Any> int setenv(Any method);
struct QCoreApplication
{
    Q_OBJECT
    Q_PROPERTY(int x READ x)
    Q_ENUMS(E)
public:
    
    QCoreApplication();
    virtual ~QCoreApplication() = default;
public Q_SLOTS:
    void unlock(int shortcut, WidgetPrivate3 * s);
private:
    QColor * lastDecl;
    int m_timer{};
    int m_x;
};
void QCoreApplication::unlock(int shortcut, WidgetPrivate3 * s)
{
    shortcut = ((WidgetPrivate3{}).set(1 << 4)).lockForRead(shortcut, shortcut);
    const char * v27 = (QFont{}).lockForRead(s->push_back(new QFont(), nullptr), (QColor{}).callObjectMethod(*new QMetaType())) ? static_cast<const char *>("red") : ("2f(const QString &)");
    const char * v28 = v27;
    return;
}
static int use0(WidgetPrivate3 * = nullptr)
{
    ((QObject{}).trimmed()).toFloat();
    fn0();
    return 1;
}
inline int use1(const char * signal, bool base64)
{
    QMetaType v31 = (QColor{}).callObjectMethod(*new QMetaType());
    setenv(&QFont::firstItem);
    use0(new WidgetPrivate3());
    return use0(new WidgetPrivate3());
}
static WidgetPrivate3 global;
