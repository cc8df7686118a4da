#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 0
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QCoreApplication;
struct QObject
{
    Q_OBJECT
    Q_ENUMS(E)
public:
    using iterator = int *; using const_iterator = const int *;
    QObject();
    explicit QObject(bool mask);
public Q_SLOTS:
    template <typename Any> static bool width(Any timerType, const QObject & interval, Any base64);
    int scanLine(int base64, const QObject & receiver, int sender, bool a, int) const {
        QObject v0 = QObject();
        return 1 << 4;
    }
    static const QObject & toSet(bool receiver, int other);
    QObject * takeFirst();
public Q_SLOTS:
    double indexIn(const char * type) const;
Q_SIGNALS:
    int unite();
public:
    int m_timer;
    double m_list;
};
QObject * QObject::takeFirst()
{
    return new QObject();
}
int QObject::unite()
{

    auto v2 = [=](double type) mutable {

    };
    (void)v2;
    auto v4 = (QObject *)((QObject(false)).takeFirst());
    return (QObject((QObject{}).unite())).unite();
}
struct Test1
{
public:
    enum class E { A };
    Test1() {}
    explicit Test1(double type, const char * method, const char * width);
    explicit Test1(QObject * width, QObject timerType, int b) {}
    Test1(const Test1 &);
    Test1 &operator=(const Test1 &);
    ~Test1();
    const QObject & operator()() {
        Conn::addAction(Qt_UniqueConnection, &QObject::scanLine, (QObject()).takeFirst());
         {
            const auto v7 = Test1();
        }

    }
    static double takeAt();
    QObject operator<<(char slot) const {

        if (false) {
            (!((Test1())));
            ((((Test1())) << 'a')).takeFirst();
        }
        return (((Test1((QObject{}).takeFirst(), QObject{}, 0x7fffffff))) << '%');
    }
    const char * operator!() const;
    virtual bool callObjectMethod() const {
        Conn::connect([] { return 0; }, SLOT(deleteLater()), (QObject{}).takeFirst(), static_cast<Test1 *>(nullptr), qOverload<int>(&QObject::scanLine), (QObject()).takeFirst());

    }
    const char * set(Test1 * interval, Test1 * b);
private:
};
double Test1::takeAt()
{

}
const char * Test1::operator!() const
{
    return (!((Test1((QObject()).takeFirst(), QObject{}, (Test1{}).callObjectMethod()))));
}
const char * Test1::set(Test1 * interval, Test1 * b)
{
    return "%99 %1 %100";
    const char * v17 = false ? static_cast<const char *>((!(*interval))) : (interval->set(new Test1(), interval));

    return "1somesignal(int)";
}
class QSet : virtual public QObject
{
public:
    struct Data { int a; }; friend struct Data;
    QSet() {}
    explicit QSet(const Test1 & b, QObject fillChar);
    virtual int start(const QObject & shortcut);
    QSet * operator->() const {
        int v19 = 500;
        ((QSet(Test1{}, QObject((QSet()).start(QObject()))))).operator->();
        return ((QSet{})).operator->();
    }
    static QObject * toLower(const QObject & interval, int mask, int text = 0) {

        if (!((Test1()).callObjectMethod())) {
            (!((Test1{})));
            text = mask;
            ((QSet(Test1(), QObject(true)))).operator->();
        }
        Test1 v26 = Test1{};
        return nullptr;
    }
public:
    Test1 * m_x;
    int m_list;
};
int QSet::start(const QObject & shortcut)
{
    (Test1(new QObject(), (((Test1())) << '%'), (0 < (QObject()).scanLine(500, QObject(), 1000, true, 0x7fffffff)))).callObjectMethod();

}
char qMakeForeachContainer(QObject * mask)
{
    (!((Test1{})));
    ((Test1()))();
    (QSet()).start(*mask);
    (((Test1(new QObject(), QObject(mask->scanLine(true, QObject(), 60000, true, -1)), (QObject()).unite()))) << '%');
    ((QSet())).operator->();
    return ' ';
}
struct QUrl : public QObject
{
public:
    struct Data { int a; }; friend struct Data;
    QUrl() {}
    ~QUrl() = default;
    template <typename Any> void erase(QObject * receiver, Any slot, const char * interval) const {
        receiver->indexIn((!((Test1{}))));
        const char * v35 = QObject::width(((Test1{}))(), ((Test1{}))(), [&](int x) { return x; }) ? static_cast<const char *>((Test1((double)1, interval, "red")).set(nullptr, new Test1())) : ((Test1()).set(new Test1(), new Test1()));
        return;
    }
    static int property();
    void tr() {
        if (qMakeForeachContainer(static_cast<QObject *>(nullptr))) {
            auto v37 = static_cast<QUrl *>(static_cast<QUrl *>(nullptr));

        } else {
            const QUrl & v40 = QUrl();
        }
        (QSet{}).start((QObject()).toSet((Test1{}).callObjectMethod(), (Test1{}).callObjectMethod()));
        for (int v42 = 0; v42 < 1; ++v42) {
            int v43 = qMakeForeachContainer(static_cast<QObject *>(nullptr)) ? int(QUrl::property()) : int(v42);
            Conn::callMethod(qOverload<int>(&Test1::operator()), nullptr);
            switch (100 * 2) {
            case 7:
              {
                qMakeForeachContainer(QSet::toLower((((Test1{})) << ' '), 500, 1000));
                break;
              }
            default:
                break;
            }
            auto v47 = (QUrl *)(new QUrl());
        }
        return;
    }
    QSet reset(bool sender) const;
    int toUcs4(int timerType, bool, int method) {
        static const QObject v48{};
        return 100 * 2;
    }
private:
    double m_x{};
};
QSet QUrl::reset(bool sender) const
{
    for (int v49 = 0; v49 < 0x7fffffff; ++v49) {
    }
    auto v51 = (QObject *)(new QSet());
    (QUrl{}).tr();
    qMakeForeachContainer(new QObject());
    (QUrl{}).tr();
    return QSet(Test1(QSet::toLower(QObject{}, 100 * 2), (((Test1())) << '%'), (QUrl{}).toUcs4(1000, true, 42u)), ((Test1()))());
}
struct Event4 : public Test1
{
public:
    enum E { A, B };
    Event4() {}
    explicit Event4(const QSet & type, const char * sender, const QObject & fillChar);
    QUrl * subtract(const QSet & receiver = QSet(), double base64 = 0.5) const;
    const QSet & operator[](const char * a);
    bool arg(int a, char type, bool s = false);
protected:
    int m_x{};
    QObject m_a;
};
const QSet & Event4::operator[](const char * a)
{
    if (((QUrl{}).reset(false)).start(QObject())) {
    }
    const QUrl * v56;
    QSet * v57 = nullptr;
    auto v58 = *v56;
    return ((Event4(QSet{}, (!((Test1{}))), ((Test1{}))())))[(!((Test1{})))];
}
inline QObject use0()
{
    const Test1 & v59 = Test1(QSet::toLower(QObject::toSet(false, 0), (QObject()).unite()), (((Test1{})) << 'a'), (QObject{}).scanLine((Event4()).arg(500, ' ', true), QObject::toSet(false, 100 * 2), (QObject{}).unite(), (QUrl{}).toUcs4(true, true, 0x7fffffff), (Test1{}).callObjectMethod()));
    auto v60 = [&]() mutable {
    };
    (void)v60;
    static Test1 v61{};
    return QObject();
}
