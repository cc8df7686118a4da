#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 1
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QCoreApplication;
class QObject
{
public:
    enum E { A, B };
    QObject();
    static double removeDuplicates(char sender, const QObject & timerType) {

    }
    virtual QObject * push();
    virtual void constFirst() const {
        (QObject()).push();
        return;
    }
    const char * operator+=(int base) const {
        return (((QObject{})) += 42u);
    }
    int lastIndexOf(const QObject & slot, QObject * fieldWidth);
protected:
    bool m_list{};
};
struct Event1 : public QObject
{
    Q_GADGET
public:
    
    Event1();
    virtual ~Event1() = default;
    const int *begin() const;
    const int *end() const;
    template <typename Any> int currentDateTimeUtc(Any fieldWidth, const char * sender);
    void operator+=(QObject method);
public Q_SLOTS:
    virtual const QObject & compare(int s) const;
    void take() const {
        ((Event1{}).addAction(static_cast<QObject *>(nullptr), (Event1{}).currentDateTimeUtc("2f(const QString &)", "QObject"))).push();
        return;
    }
    virtual QObject addAction(QObject * timerType, int type) {
        return (Event1()).compare(1000);
    }
protected:
    int m_timer;
    int m_list;
    int m_x;
};
const QObject & Event1::compare(int s) const
{
    for (auto v4 : Event1()) {
    }
    return QObject();
}
template <typename T> struct QJsonArray : virtual public Event1
{
    Q_OBJECT
    Q_PROPERTY(int m MEMBER m_a)
public:
    struct Data { int a; }; friend struct Data;
    QJsonArray() = default;
    explicit QJsonArray(int shortcut, QObject * slot, int signal);
    virtual ~QJsonArray();
    const char * operator()(QObject * fieldWidth, Event1 slot);
    const QObject * dtor() const;
    QObject * setNamedColor(const char * base) const;
Q_SIGNALS:
    void setInterval(int other) {
        other = ((60000 == 60000) + (Event1()).currentDateTimeUtc((Event1()).addAction(new QObject(), 1 << 4), "[a-z]+"));
        const QObject & v6 = (Event1{}).compare(500);
        ((QJsonArray<int>((Event1()).currentDateTimeUtc(nullptr, ""), (QJsonArray<int>()).setNamedColor("%1 %2"), other)))((QJsonArray<int>()).setNamedColor("red"), Event1());
        return;
    }
    int constLast(Event1 * receiver, int a);
private:
    Event1 * m_x;
};
class QWeakPointer
{
public:
    typedef int Key;
    QWeakPointer() = default;
    QJsonArray<int> * callStaticObjectMethod(bool text, QWeakPointer) const;
    static const QObject & fromLatin1(const char * base, const char * fillChar);
    QObject * winId(const QWeakPointer & mask = QWeakPointer()) const;
    static bool begin() {
        (((Event1())) += QObject{});
        return true;
    }
    const char * operator%(const char * a) const {
        Conn::singleShot(static_cast<QJsonArray<int> *>(nullptr), &Event1::addAction, SLOT(deleteLater()), SIGNAL(), SIGNAL(destroyed()));
        for (auto &&v10 : *new Event1()) {
            ((QJsonArray<int>()))((QJsonArray<int>()).setNamedColor((((QObject())) += -1)), Event1{});
            auto v12 = (QWeakPointer *)((QWeakPointer()).winId(QWeakPointer()));
            (QObject()).push();
        }
        return ((QJsonArray<int>(0x7fffffff, (QJsonArray<int>{}).setNamedColor("#ff00ff"), (QObject{}).lastIndexOf(QObject(), static_cast<QObject *>(nullptr)))))((QWeakPointer()).winId(), Event1());
    }
    const QObject & firstItem(QObject * shortcut);
private:
    int m_timer;
    int m_x;
};
QJsonArray<int> * QWeakPointer::callStaticObjectMethod(bool text, QWeakPointer) const
{
    int v14 = (Event1{}).currentDateTimeUtc(0x7fffffff, (((QObject())) += 100 * 2));
    (((Event1{})) += QObject{});
    switch ((QObject{}).lastIndexOf((Event1{}).compare(-1), (QWeakPointer()).winId(QWeakPointer()))) {
    case 7:
      {
        const char * v17 = ((((QWeakPointer{}).fromLatin1("#ff00ff", "%1 %2"))) += (QJsonArray<int>()).constLast(static_cast<Event1 *>(nullptr), 0x7fffffff));
        break;
      }
    default:
        break;
    }
    return (QWeakPointer()).callStaticObjectMethod(false, QWeakPointer{});
}
const QObject & QWeakPointer::fromLatin1(const char * base, const char * fillChar)
{
    if (QWeakPointer::begin()) {
        auto v19 = (QObject *)(nullptr);
        (Event1()).take();
        const auto v21 = Event1{};
    } else {

    }
    return (QWeakPointer{}).firstItem(new QObject());
}
template <typename T> struct QEvent
{
public:
    struct Data { int a; }; friend struct Data;
    QEvent();
    explicit QEvent(char base64, const char * shortcut, const Event1 & receiver);
    QEvent(const QEvent &) = default;
    QEvent &operator=(const QEvent &);
    static int front(const char * s);
    virtual bool registerHelper(double s);
    int isNull(bool receiver) const;
    const QJsonArray<int> & toLower(QEvent<int> * sender, int fieldWidth, const QWeakPointer & timerType);
    void toString(QJsonArray<int> * width, const char * a);
private:
    QWeakPointer lastDecl;
};
class QItemSelection
{
    Q_GADGET
    Q_PROPERTY(int m MEMBER m_a)
public:
    struct Data { int a; }; friend struct Data;
    QItemSelection();
    QItemSelection(const QItemSelection &);
    QItemSelection &operator=(const QItemSelection &);
    virtual ~QItemSelection();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    void toUInt() const;
private:
    const char * d;
    const char * m_a{};
};
struct Foo6
{
    Q_GADGET
public:
    using iterator = int *; using const_iterator = const int *;
    Foo6() = default;
    Foo6(const Foo6 &);
    Foo6 &operator=(const Foo6 &) = default;
    ~Foo6();
signals:
    const char * fill(int other) {
        for (int v23 = 0; v23 < (QEvent<int>{}).isNull(QEvent<int>::front("%1 %2")); ++v23) {
        }
        return (Foo6{}).fill((500 < (Foo6{}).fill()));
    }
    int fill();
    QEvent<int> * postEvent(int text, bool base = false) {
        return new QEvent<int>();
    }
public:
};
int Foo6::fill()
{

     {
        if (QWeakPointer::begin()) {
        }
    }
    (Foo6{}).fill();
    return QEvent<int>::front("[a-z]+");
}
template <typename Any> static const char * use0(const QWeakPointer & receiver, Any other, const char * fieldWidth)
{
    ((receiver) % (((QWeakPointer{})) % ((QJsonArray<int>()))(new QObject(), Event1{})));
    switch (0) {
    case 7:
      {
        break;
      }
    default:
        break;
    }

}
