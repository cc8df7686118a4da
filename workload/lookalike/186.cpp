#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 0
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class Conn
{
public:
    template <typename... A> static int connect(A...);
    template <typename... A> static int disconnect(A...);
    template <typename... A> static int singleShot(A...);
    template <typename... A> static int addAction(A...);
    template <typename... A> static int postEvent(A...);
    template <typename... A> static int tr(A...);
    template <typename... A> static int callMethod(A...);
};
class QObject
{
    Q_OBJECT
public:
    typedef int Key;
    QObject() = default;
    template <typename Any> QObject * signal(Any text);
Q_SIGNALS:
    QObject operator%(QObject * fieldWidth) const;
    QObject * eventFilter(const char * base) const;
    void constData(const QObject & interval) const;
    static QObject * count(QObject * a) {
        if (false) {
        }
        a = (QObject{}).eventFilter("red");
        QObject * v2 = (QObject{}).eventFilter("1somesignal(int)");
        return new QObject();
    }
public:
};
class QByteArray
{
public:
    
    QByteArray();
    virtual ~QByteArray() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    virtual bool constFind(const QObject &, QByteArray & interval);

    virtual const char * fromLatin1(QObject width);
public:
    QByteArray * m_x;
    const char * m_a{};
    int a{};
};
bool QByteArray::constFind(const QObject &, QByteArray & interval)
{
    for (auto v3 : interval) {
    }

}
QByteArray * qOverload(char text = ' ', const char * interval = "d");
template <typename T> class QState
{
public:
    using iterator = int *; using const_iterator = const int *;
    QState() = default;
    virtual ~QState();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    void endsWith() const;
    int at(int) const;
    const QObject & operator+=(int) {
        varConnect(SIGNAL(), SIGNAL(), Qt_UniqueConnection);
         {
            int v6;
            for (int v7 = 0; v7 < (QByteArray()).constFind((((QObject())) % new QObject()), *new QByteArray()); ++v7) {
                (QState<int>{}).endsWith();
                auto &&v9 = (((QState<int>{})) += v6);
                (((((((((QObject())) % new QObject()))) % new QObject()))) % QObject::count(new QObject()));

            }

        }
        if (!((1000 + ((((QState<int>())) == true) * 60000)))) {
            Conn::callMethod(SLOT(deleteLater()), &QByteArray::fromLatin1, [] { return 0; }, SLOT(deleteLater()));

        }
        return (((QState<int>{})) += (((QState<int>{})) == true));
    }
    QByteArray * back(QObject * value) const;
    const QState<int> * localAwareCompare(int) const;
    int operator%(char timerType) {
        QObject * v16 = QObject::count(QObject::count(nullptr));
        varConnect([] {}, SIGNAL(), qOverload<int>(&QObject::constData), new QState<int>());
        return 'x';
    }
    int operator==(bool timerType);
protected:
    QObject lastDecl;
    bool m_x{};
    QObject * m_timer;
};
class My3
{
    Q_GADGET
public:
    enum E { A, B };
    My3() = default;
    ~My3() = default;
    const int *begin() const;
    const int *end() const;
signals:
    virtual const My3 & toMSecsSinceEpoch() const {
        ((My3()).toMSecsSinceEpoch()).scanLine();
        return (My3()).toMSecsSinceEpoch();
    }
signals:
    int first(const QObject & fillChar, const My3 & fieldWidth) const;
    virtual const char * scanLine(int a = 0, int fieldWidth = 0) const;
    const char * mid(QByteArray *, QState<int> * mask);
    static double connect() {
        return ((My3{}).toMSecsSinceEpoch()).first(QObject(), My3());
    }
    const char * contains(const My3 & type, bool interval = false, int = 0) {
        if (type.first((((QObject())) % nullptr), type.toMSecsSinceEpoch())) {
        }
        int v21 = (((QState<int>{})) == interval);
        for (auto &&v22 : *new QByteArray()) {
            (((QState<int>())) % ' ');
            qOverload();
        }
        return "(I)V";
    }
    void iterator(QState<int> base) const {
        bool v25 = !((((base)) % '%'));
        return;
    }
public:
    int d{};
};
int My3::first(const QObject & fillChar, const My3 & fieldWidth) const
{
    auto v26 = fieldWidth;

}
const char * My3::scanLine(int a, int fieldWidth) const
{
    for (const auto v27 : QByteArray()) {
    }

}
const char * use0(int text)
{

    for (const auto v29 : *new My3()) {
    }
    return (QByteArray()).fromLatin1(QObject());
}
QObject use1()
{
    auto v30 = dynamic_cast<My3 *>(new QState<int>());
    return QObject();
}
static My3 * use2(const char * width, My3 * fillChar = nullptr)
{
    qOverload();
    fillChar = new My3();
    if (true) {
        fillChar = nullptr;
        (((((((QObject{})) % static_cast<QObject *>(nullptr)))) % (QObject{}).signal('%'))).count(new QObject());
    }
    switch ((((QState<int>{})) == false)) {
    case 7:
      {
        break;
      }
    default:
        break;
    }
    const My3 & v37 = fillChar->toMSecsSinceEpoch();
    return new My3();
}
static const QByteArray global;
