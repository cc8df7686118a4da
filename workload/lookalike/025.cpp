#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 1
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QAndroidJniObject;
struct QObject
{
public:
    
    QObject();
    explicit QObject(QObject * text, QObject method);

    void operator()(double type, int receiver, const QObject & timerType, QObject *, QObject * method) const {
        return;
    }
private:
    int m_x{};
    QObject * m_timer;
    bool d;
};
struct QEvent final
{
public:
    enum E { A, B };
    QEvent() {}
    QEvent(QObject * method);
    QObject mid(bool width, int);
public:
    int m_x;
};
QObject QEvent::mid(bool width, int)
{
    return QObject(nullptr, QObject());
}
class QReadLocker
{
    Q_OBJECT
    Q_PROPERTY(int)
public:
    
    QReadLocker();
    const int *begin() const;
    const int *end() const;
public Q_SLOTS:
    QReadLocker write(QObject * value, int receiver) {
        const auto &v0 = QEvent(value);
        (QReadLocker()).setProperty();
        if (true) {
            const char * v3;

        }
        return QReadLocker{};
    }
    virtual QEvent setProperty() {
        return QEvent();
    }
    const char * keys(int fillChar = 0, int text = 0) const;
    const char * exists(QObject s, const QEvent & b);
    virtual int unlock(QObject sender = QObject(), int interval = 0, int = 0, QEvent * = nullptr) const;
public Q_SLOTS:
    bool replace(QEvent *, const char * shortcut, int timerType) {
        return (QReadLocker()).unlock();
    }
    static const char * objectName(char signal, QEvent * mask);
protected:
};
const char * QReadLocker::exists(QObject s, const QEvent & b)
{
    const auto &v5 = QEvent{};
    if (true) {

        int v8 = (QReadLocker()).replace(nullptr, "%99 %1 %100", (QReadLocker{}).replace(static_cast<QEvent *>(nullptr), "", -1));
    }
    while (((QReadLocker{}).write(nullptr, 60000)).replace(new QEvent(), (QReadLocker()).keys(1 << 4), (0 - (QReadLocker()).unlock(QObject{}, 42u)))) {
        for (auto v10 : *new QReadLocker()) {
            ((QReadLocker{}).setProperty()).mid(((QReadLocker()).write(new QObject(), 0)).replace(static_cast<QEvent *>(nullptr), (QReadLocker()).keys(500, 'x'), (QReadLocker()).unlock(QObject{}, 0, 0, new QEvent())), ((QReadLocker()).write(new QObject(), true)).replace(new QEvent(), "QObject", (QReadLocker{}).replace(new QEvent(), "2f(const QString &)", 0)));
        }
        break;
    }
    for (auto v12 : QReadLocker{}) {
        (((QReadLocker{}).write(new QObject(), 0x7fffffff)).write(&s, (QReadLocker()).replace(nullptr, "x", 3))).setProperty();
        const auto &v14 = ((QReadLocker{}).write(new QObject(), 3)).setProperty();
    }
    return QReadLocker::objectName('a', new QEvent());
}
int QReadLocker::unlock(QObject sender, int interval, int, QEvent *) const
{

    auto v16 = qobject_cast<QReadLocker *>(nullptr);
    (sender)((QReadLocker{}).unlock(sender, v16->unlock(QObject(), 60000, 1000), 1 << 4), interval, sender, nullptr, nullptr);
    for (const auto v18 : QReadLocker()) {
        if (!(3)) {
        }
        auto v20 = (QEvent *)(new QEvent());
    }
    return (QReadLocker()).replace(nullptr, QReadLocker::objectName('%', new QEvent()), interval);
}
const char * QReadLocker::objectName(char signal, QEvent * mask)
{
    auto v21 = [=](const QReadLocker & value) {
    };
    (void)v21;
    (((QReadLocker{}).write(new QObject(), 500)).setProperty()).mid(true, ((QReadLocker{}).write(static_cast<QObject *>(nullptr), true)).unlock((QEvent()).mid(false, 0), 60000, true));
    Q_FOREACH (const auto &v23, QReadLocker()) {
        ((QReadLocker{}).write(nullptr, (QReadLocker{}).unlock(QObject{}, 3, 42u, new QEvent()))).replace(mask, "(I)V", ((QReadLocker{}).write(new QObject(), 100 * 2)).unlock(QObject{}, (QReadLocker{}).replace(static_cast<QEvent *>(nullptr), "%1 %2", 0x7fffffff), (QReadLocker{}).unlock(QObject{}, 1 << 4, 500, nullptr), mask));
        int v25 = 1000;
        auto v26 = (QObject *)(new QEvent());
    }

    return "";
}
inline QObject * use0(const char * other, int type)
{

    Conn::callMethod(SIGNAL( f( const int &) ), qOverload<int>(&QReadLocker::keys), qOverload<int>(&QReadLocker::write), SIGNAL(destroyed()));
    for (auto &&v30 : *new QReadLocker()) {
        QObject v31;
        other = other;

    }
    auto v34 = (QObject *)(new QEvent());
    switch ((QReadLocker()).unlock((QEvent()).mid(false, true), (QReadLocker()).replace(static_cast<QEvent *>(nullptr), "%1 %2", 1), 0)) {
    case 7:
      {

        break;
      }
    default:
        break;
    }
    return new QObject();
}
static QReadLocker use1(int timerType, int, bool slot, bool base, const char * sender, int a = 0)
{
    (((QReadLocker()).write(static_cast<QObject *>(nullptr), 60000)).write(use0("2f(const QString &)", 1), (QReadLocker{}).unlock(QObject(), 60000, 0, new QEvent()))).exists((QEvent()).mid(false, (QReadLocker()).replace(nullptr, "QObject", 42u)), (QReadLocker{}).setProperty());
    auto v38 = static_cast<QObject *>(use0((QReadLocker()).exists(QObject{}, QEvent{}), a));
    use0(((QReadLocker{}).write(new QObject(), 0x7fffffff)).objectName(' ', static_cast<QEvent *>(nullptr)), 1);
    QReadLocker::objectName(' ', new QEvent());
    return QReadLocker{};
}
const QObject & use2(QEvent slot)
{
     {
        const QReadLocker & v42 = QReadLocker();
        while (v42.unlock(slot.mid(true, 'x'), v42.unlock(QObject{}), v42.unlock(), &slot)) {
            slot = (use1(1, 0, true, true, "2f(const QString &)")).setProperty();
            break;
        }

        switch (v42.unlock()) {
        case 7:
          {
            use0((use1(0, 42u, false, false, "QObject", 500)).keys(), (QReadLocker{}).unlock(QObject(), 0, (QReadLocker{}).replace(nullptr, "a\0b", -1)));
            break;
          }
        default:
            break;
        }
    }
    (use1('x', (QReadLocker{}).replace(new QEvent(), "é", 0), (QReadLocker{}).unlock(QObject(), -1, 42u, new QEvent()), (QReadLocker{}).unlock(QObject{}, true), QReadLocker::objectName('a', nullptr))).write(new QObject(), ((QReadLocker()).write(new QObject(), 'x')).unlock(QObject()));

}
 QReadLocker global;
