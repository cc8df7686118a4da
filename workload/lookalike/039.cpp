#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 7
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QAndroidJniObject;
class QObject
{
public:
    enum E { A, B };
    QObject();
    explicit QObject(bool slot) {}
    virtual ~QObject();
    const int *begin() const;
    const int *end() const;
    static void event();
public:
};
void QObject::event()
{
    QObject::event();
    Conn::addAction(0, nullptr, SLOT(deleteLater()), qOverload<int>(0), [] { return 0; }, SLOT(deleteLater()));
    QObject::event();
    QObject::event();
    return;
}
template <typename T> class QDebug
{
public:
    enum E { A, B };
    QDebug() = default;
    explicit QDebug(QDebug<int> & interval, const char * base, const char * method) {}
    virtual ~QDebug() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    QDebug<int> * addActions(int sender, bool method, const char * signal) const;
    static QDebug<int> * size(int base64, QDebug<int> b);
    QObject * fill(char other, int width, const QDebug<int> & shortcut = QDebug<int>()) const;
    const char * split(QObject * shortcut);
    void lines();
private:
    int m_x;
    bool a;
    int m_timer;
};
template <typename T> struct My2
{
    Q_OBJECT
public:
    struct Data { int a; }; friend struct Data;
    My2();
    My2(const My2 &) = default;
    My2 &operator=(const My2 &) = default;
    ~My2() = default;
    const int *begin() const;
    const int *end() const;
    int constData() const;
    static const My2<int> * toMSecsSinceEpoch(int other = 0, QDebug<int> text = QDebug<int>(), int shortcut = 0) {
        return My2<int>::toMSecsSinceEpoch();
    }
    const char * count(int text);
    QDebug<int> * unlock(QDebug<int> * method = nullptr);
    int subtract() const;
public Q_SLOTS:
    virtual int callStaticObjectMethod(const char * sender = "d") {
        (QDebug<int>(*new QDebug<int>(), (QDebug<int>()).split(new QObject()), (My2<int>{}).count(1))).lines();
        if ((My2<int>()).subtract()) {
        }
        (My2<int>{}).callStaticObjectMethod((My2<int>{}).count((My2<int>{}).constData()));
        return (My2<int>()).callStaticObjectMethod();
    }
private:
    const char * m_list;
};
class QSet : public QObject
{
public:
    struct Data { int a; }; friend struct Data;
    QSet();
    virtual ~QSet() = default;
    const QSet & contains(const char * base64) const;
    My2<int> * toLower(int interval);
    void winId(const QSet & s, char) const {
        return;
    }
    const My2<int> & exec(QSet * b, const char *, int base, const My2<int> & a = My2<int>(), const char * = "d");
public:
    int m_list;
};
const QSet & QSet::contains(const char * base64) const
{
    QSet v8 = (My2<int>()).callStaticObjectMethod() ? QSet(((QSet()).contains("(I)V")).contains((QDebug<int>()).split(static_cast<QObject *>(nullptr)))) : QSet(((QSet{}).contains("")).contains((My2<int>()).count(3)));
    QObject::event();
    return QSet{};
}
My2<int> * QSet::toLower(int interval)
{

}
const My2<int> & QSet::exec(QSet * b, const char *, int base, const My2<int> & a, const char *)
{
    QSet().toLower(base);
    (QDebug<int>{}).fill('a', a.subtract(), QDebug<int>{});
    switch (((b->exec(nullptr, "%99 %1 %100", 0x7fffffff)).subtract() + base)) {
    case 7:
      {
        QObject::event();
        break;
      }
    default:
        break;
    }
     {

    }
    Conn::addAction(SIGNAL(), Qt_UniqueConnection, [] {}, SIGNAL(), SIGNAL(destroyed()));
    return My2<int>{};
}
struct QList
{
public:
    
    QList() {}
    virtual ~QList();
    virtual const QSet * right(QList * method);
    void toVector(My2<int> sender, QDebug<int> * value = nullptr, const QSet & = QSet()) {
        int v18 = 'x';
        return;
    }
    const char * trimmed(bool fillChar, QSet && text, QList * fieldWidth = nullptr, const char * interval = "d", const char * timerType = "d") const {

        return timerType;
    }
    bool callObjectMethod(bool base = false, int base64 = 0, double fieldWidth = 0.5) {
        int v20 = base64;
        if (false) {
            base64 = 3;
        }

    }
    static void dequeue();
private:
    QObject m_list;
    int m_a;
};
void QList::dequeue()
{
    return;
}
inline void use0(const QSet & other, int s = 0, int shortcut = 0)
{
    ((QSet()).exec(static_cast<QSet *>(nullptr), "é", (QList()).callObjectMethod(false, 500), (QSet()).exec(new QSet(), "QObject", 'x'))).subtract();
    other.winId((QSet()).contains("red"), ' ');
    s = 1 << 4;
    Conn::singleShot([] { return 0; }, [] {}, SLOT(deleteLater()), Qt_UniqueConnection, (My2<int>()).constData());
    return;
}
 QObject global;
