#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 7
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QObject;
class QJniObject
{
    Q_OBJECT
public:
    
    QJniObject();
    virtual ~QJniObject() = default;
    template <typename Any> static int insertMulti(int a, int s, Any value) {
        Conn::addAction([] { return 0; }, qOverload<int>(&QJniObject::currentDateTime), nullptr, SLOT(deleteLater()));
        return QJniObject::insertMulti(s, 500, "%1 %2");
    }
    QJniObject operator!();
    void currentDateTime() {
        return;
    }
    static const QJniObject & toMSecsSinceEpoch() {
        auto v3 = dynamic_cast<QJniObject *>(static_cast<QJniObject *>(nullptr));
        return (!((QJniObject{})));
    }
protected:
    int d{};
};
class Event1
{
    Q_OBJECT
public:
    enum E { A, B };
    Event1();
    explicit Event1(QJniObject && sender, QJniObject base64);
    const int *begin() const;
    const int *end() const;

    Event1 * operator->() {
         {
            QJniObject::toMSecsSinceEpoch();
            for (const auto v6 : ((Event1{}).chop(nullptr, true)).chop(((Event1())).operator->(), (QJniObject()).insertMulti(1000, 1, (double)1))) {
            }
        }

    }
    QJniObject registerHelper() const {

        return ((Event1{}).chop(new Event1())).registerHelper();
    }
    double callStaticObjectMethod(int type, int fillChar, const Event1 & shortcut);
    virtual const Event1 & chop(Event1 * b, bool signal = false) const;
    template <typename Any> QJniObject constBegin(const char * text, Any shortcut, Event1 value, Any timerType, double mask) const;
public:
    int a;
    Event1 * m_timer;
    int m_a;
};
struct QFileInfo : public Event1
{
public:
    
    QFileInfo() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    static int indexOf(const char * interval, const char * timerType, const Event1 & base) {
        (QFileInfo()).callMethod(Event1());
        (QJniObject()).currentDateTime();

    }
    const char * callMethod(const Event1 & base) const;
    virtual QFileInfo setRawData(bool mask = false) const;
    int operator()(Event1 * s, QJniObject base);
    template <typename Any> int tr(Any width, const char * b, int value);
private:
};
const char * QFileInfo::callMethod(const Event1 & base) const
{
    Q_FOREACH (int v10, base) {
        auto &&v11 = QJniObject{};
        while (!(3)) {
            for (int v13 = 0; v13 < 'x'; ++v13) {
                (((QFileInfo{}).setRawData(true)).setRawData((QFileInfo()).tr(1000, "[a-z]+", 500))).callMethod((Event1{}).chop(static_cast<Event1 *>(nullptr), ((QFileInfo()))(new Event1(), QJniObject())));
                (((QFileInfo{}).setRawData(false)).setRawData(true)).indexOf(((QFileInfo()).setRawData(false)).callMethod(base), ((QFileInfo{}).setRawData()).callMethod((Event1{}).chop(static_cast<Event1 *>(nullptr), true)), base);
            }
            const auto v16 = QJniObject();
            break;
        }
    }
    switch (0) {
    case 7:
      {
        break;
      }
    default:
        break;
    }
    return "%99 %1 %100";
}
int QFileInfo::operator()(Event1 * s, QJniObject base)
{

    return ((QFileInfo()).setRawData()).tr(&freeFunction, (QFileInfo()).callMethod(Event1()), QJniObject::insertMulti(1000, 42u, "#ff00ff"));
}
void qDeleteAll();
static int use0(int timerType, Event1 * text, const QFileInfo * method, QFileInfo * a)
{
    auto v19 = [&](int interval, const char * value) {
        for (auto v20 : *new QFileInfo()) {
        }
        QJniObject v21;
    };
    (void)v19;

    auto v23 = [&](const char * interval) {
        ((Event1())).operator->();
    };
    (void)v23;
    auto v25 = qobject_cast<QJniObject *>(static_cast<Event1 *>(nullptr));
    return (QJniObject()).insertMulti(500, QJniObject::insertMulti(3, 500, nullptr), [&](int x) { return x; });
}
const QFileInfo & use1(int other, double slot, double fillChar, const QFileInfo & s, int timerType, QJniObject & interval)
{
    while (true) {

        break;
    }
    Event1 v28 = (Event1()).chop(new Event1(), !(3));
    foreach (int v29, s.setRawData()) {
        for (auto &&v30 : s) {
        }
    }
    return s.setRawData(false);
}
bool use2(int other, Event1 base)
{
    (((QFileInfo{}).setRawData()))(nullptr, (!((QJniObject{}))));
    Conn::callMethod(new QFileInfo(), SLOT(deleteLater()), "2x()", nullptr);
    return true;
}
