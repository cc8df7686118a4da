#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 8
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QObject
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QObject;
class QMouseEvent
{
    Q_OBJECT
public:
    
    QMouseEvent();
    QMouseEvent(const QMouseEvent &);
    QMouseEvent &operator=(const QMouseEvent &) = default;
    virtual ~QMouseEvent();
    const int *begin() const;
    const int *end() const;
    static int value(bool base, int receiver);
    const QMouseEvent & compare(QMouseEvent fillChar, int base = 0) const;
public slots:
    int unlock(QMouseEvent * slot, const QMouseEvent & interval = QMouseEvent()) const;
    QMouseEvent * operator->() const;
Q_SIGNALS:
    int setObjectName(const char * b, int mask, double type, const char * s) const {
        Q_FOREACH (auto v0, (QMouseEvent()).compare(QMouseEvent{}, QMouseEvent::value(false, 3))) {
            QMouseEvent::toUTC();
        }
        return (QMouseEvent{}).unlock(((QMouseEvent{})).operator->());
    }
    int setRawData(bool base64) const {
        QMouseEvent::toUTC();
        QMouseEvent v3 = (QMouseEvent{}).setRawData((QMouseEvent{}).setObjectName("%1 %2", 42u, 1e9, "a\0b")) ? QMouseEvent(((QMouseEvent{}).compare(QMouseEvent{})).compare(QMouseEvent{}, (QMouseEvent{}).setObjectName("#ff00ff", 'x', 1e9, "%99 %1 %100"))) : QMouseEvent(((QMouseEvent{}).compare(QMouseEvent())).compare((QMouseEvent{}).compare(QMouseEvent{}), (QMouseEvent()).setObjectName("QObject", 0, 0.5, "QObject")));
        v3.setObjectName(QMouseEvent::toUTC(), QMouseEvent::value((QMouseEvent()).setRawData(true), QMouseEvent::value(false, 1000)), (v3.compare(QMouseEvent(), 'x')).value(base64, v3.setObjectName("x", 'x', 1e9, "%1 %2")), QMouseEvent::toUTC());
        return (QMouseEvent()).setRawData(true);
    }
    static const char * toUTC();
public:
    const char * m_x;
};
int QMouseEvent::value(bool base, int receiver)
{
    return (-1 < ((QMouseEvent()).compare(QMouseEvent{}, 3)).setObjectName("x", (QMouseEvent()).unlock(static_cast<QMouseEvent *>(nullptr)), (QMouseEvent()).setRawData(true), QMouseEvent::toUTC()));
}
void qRegisterMetaType(int b, double other, QMouseEvent shortcut);
const QMouseEvent & use0(const QMouseEvent & type, QMouseEvent * timerType, const char * method, QMouseEvent width, const QMouseEvent & interval)
{
    int v5;
    width.setObjectName(QMouseEvent::toUTC(), interval.unlock(&width, type), (double)1, method);
    const char * v7 = true ? static_cast<const char *>("x") : ("2f(const QString &)");
    QMouseEvent::toUTC();
    type.setRawData(false);
    qRegisterMetaType(-1, interval.value(false, 3), QMouseEvent());
    return type;
}
inline int use1(int sender, const QMouseEvent & s)
{
    QMouseEvent v11 = (QMouseEvent{}).setObjectName("2f(const QString &)", (QMouseEvent()).unlock(new QMouseEvent()), s.setRawData(true), QMouseEvent::toUTC()) ? QMouseEvent(s.compare(QMouseEvent(), s.setObjectName("(I)V", 42u, 0.5, "a\0b"))) : QMouseEvent(s);
    const char * v12;
    return s.setRawData(!(s.setObjectName("#ff00ff", 1 << 4, (double)1, "#ff00ff")));
}
const QMouseEvent & use2(const QMouseEvent * value = nullptr, int b = 0)
{
    value->compare(*value);
    return value->compare(value->compare(QMouseEvent()));
}
