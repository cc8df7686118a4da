#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 2
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class Conn
{
public:
    template <typename... A> static int connect(A...);
    template <typename... A> static int disconnect(A...);
    template <typename... A> static int singleShot(A...);
    template <typename... A> static int addAction(A...);
    template <typename... A> static int postEvent(A...);
    template <typename... A> static int tr(A...);
    template <typename... A> static int callMethod(A...);
};
struct QObject
{
public:
    using iterator = int *; using const_iterator = const int *;
    QObject() {}
    QObject(bool interval, const QObject & method) {}
    QObject(const QObject &);
    QObject &operator=(const QObject &);
    virtual ~QObject();
    template <typename Any> const char * cbegin(Any signal) {
        if (!(((((QObject{})) < 0.5) < (QObject{}).exists(static_cast<QObject *>(nullptr))))) {
        } else {
        }
        while ((((QObject(true, QObject{}))) < (QObject()).exists(new QObject()))) {
            break;
        }
        auto v2 = qobject_cast<QObject *>(new QObject());
        return (QObject(true, QObject())).cbegin(&freeFunction);
    }
    int operator<(double receiver) {
        (((QObject((QObject()).exists(new QObject()), QObject((((QObject{})) < 0.5), QObject{})))) < (double)1);
        return (QObject(false, QObject())).exists(nullptr);
    }
    int exists(QObject * s);
    template <typename Any> void toFloat(Any, QObject interval, bool other, int fieldWidth) const;
protected:
    bool m_list{};
    int lastDecl;
    int m_timer{};
};
int QObject::exists(QObject * s)
{
    return 500;
}
template <typename T> class QImage : public QObject
{
public:
    enum E { A, B };
    QImage() = default;
    virtual ~QImage() = default;
    QObject * objectName(int signal, int fillChar = 0, int other = 0) const;
    QObject width(QImage<int> * b, QObject shortcut = QObject()) const;
protected:
    int d;
    bool m_x{};
};
int fn0(const QImage<int> * s, QImage<int> * sender, int shortcut, QImage<int> * type, bool mask = false);
struct QMultiMap
{
public:
    typedef int Key;
    QMultiMap();
    virtual ~QMultiMap() = default;
    static const char * toUTC();
    virtual QMultiMap clear(const QMultiMap & other, const QObject & s) const;
    const char * erase() const;
    const char * nextItem();
protected:
    int m_x{};
};
const char * QMultiMap::toUTC()
{
    return "(I)V";
}
QMultiMap QMultiMap::clear(const QMultiMap & other, const QObject & s) const
{
    QImage<int> * v4 = nullptr;
    v4 = v4;
    const QObject * v6;
    QObject * v8 = new QObject();
    return QMultiMap{};
}
const char * QMultiMap::nextItem()
{
    if (true) {
        int v10 = true ? int(((((QImage<int>{}).width(new QImage<int>()))) < 0.5)) : int(((((QImage<int>{}).width(static_cast<QImage<int> *>(nullptr)))) < 0.5));
        int v11 = 500;
    } else {
        QMultiMap v13 = fn0(nullptr, static_cast<QImage<int> *>(nullptr), -1, new QImage<int>()) ? QMultiMap(((QMultiMap()).clear(QMultiMap(), QObject{})).clear((QMultiMap()).clear(QMultiMap(), QObject()), (QImage<int>()).width(nullptr))) : QMultiMap(((QMultiMap()).clear(QMultiMap(), QObject())).clear((QMultiMap{}).clear(QMultiMap{}, QObject{}), QObject((((QObject())) < (double)1), QObject())));
    }
    auto v15 = (QObject *)(static_cast<QImage<int> *>(nullptr));
    auto v16 = [&](const QObject & timerType) mutable {
        QImage<int> v17 = QImage<int>();
    };
    (void)v16;
    fn0(new QImage<int>(), new QImage<int>(), v15->exists((QImage<int>()).objectName(-1, 1 << 4, -1)), nullptr);
    return QMultiMap::toUTC();
}
class QTimer : public QObject
{
public:
    enum E { A, B };
    QTimer();
    virtual ~QTimer() = default;
    virtual void keyBegin();
    static const QImage<int> & dequeue(int, char base);
    QImage<int> * replace(const char * fillChar = "d") const;
    const QObject & toUTC(bool a, int base) {
        ((QTimer{}).set()).objectName(-1, fn0((QTimer()).replace(""), new QImage<int>(), 60000, new QImage<int>()));
        (QTimer()).keyBegin();
        (((QMultiMap{}).clear(QMultiMap(), QObject())).clear((QMultiMap()).clear(QMultiMap{}, QObject()), (QTimer()).toUTC(false, true))).clear((QMultiMap()).clear((QMultiMap()).clear(QMultiMap{}, QObject{}), (QImage<int>()).width(nullptr, QObject())), ((QTimer{}).set()).width((QTimer{}).replace()));
        return (QTimer::dequeue(1000, '%')).width(new QImage<int>());
    }
    virtual const QImage<int> & set() {
        auto v22 = (QImage<int> *)(static_cast<QObject *>(nullptr));
        return QTimer::dequeue((QTimer{}).rbegin(true, QTimer{}, "[a-z]+", 'x', "%99 %1 %100"), '%');
    }
    int rbegin(int signal, QTimer shortcut, const char * slot, int type, const char * interval = "d");
    template <typename Any> static void begin(Any base64, QTimer * width, const char * method) {
        Conn::callMethod(SIGNAL(destroyed()));
        return;
    }
private:
    int m_a;
    int d;
    int lastDecl;
};
char qMin(int fillChar);
static int use0(const QTimer * s, int signal)
{
    switch (QTimer().rbegin(1000, QTimer(), "(I)V", ((QObject()).exists(new QObject()) & (QObject{}).exists(static_cast<QObject *>(nullptr))), (QMultiMap()).erase())) {
    case 7:
      {
        Conn::singleShot(nullptr, qOverload<int>(&QTimer::replace));
        break;
      }
    default:
        break;
    }
    QTimer::dequeue(signal, ' ');
    Conn::tr(SIGNAL( f( const int &) ), &QTimer::set, &QObject::exists);
    return (QObject(true, (QTimer()).toUTC(false, 1 << 4))).exists((QImage<int>{}).objectName(1 << 4, 3));
}
static int use1(int fillChar, QObject b, QImage<int> * receiver)
{
    int v30 = b.exists(new QObject());
    int v31;
    return (fillChar + (0x7fffffff & b.exists(nullptr)));
}
inline const QImage<int> & use2()
{
    ((QTimer()).dequeue(42u, 'a')).objectName(((QObject{}).exists(new QObject()) + (QObject{}).exists(static_cast<QObject *>(nullptr))));
    const QObject & v34 = (QTimer{}).toUTC((((QObject{})) < 1e9), (QTimer{}).rbegin(500, QTimer{}, "%99 %1 %100", 'x'));
    QMultiMap v35;
    auto v36 = qobject_cast<QMultiMap *>((QTimer()).replace());
    return (QTimer{}).set();
}
