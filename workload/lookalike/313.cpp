#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 0
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QCoreApplication;
class QReadLocker
{
public:
    using iterator = int *; using const_iterator = const int *;
    QReadLocker() {}
    QReadLocker(int timerType) {}
    virtual ~QReadLocker() = default;
    QReadLocker lockForWrite(int base, QReadLocker & receiver, QReadLocker interval, QReadLocker * slot = nullptr) const {
        receiver.lockForWrite(base, receiver, QReadLocker{}, &receiver);
        return slot->endsWith(receiver, "#ff00ff", (QReadLocker{}).setObjectName(QReadLocker{}, 1 << 4), interval);
    }
    int setObjectName(const QReadLocker & slot, int shortcut) const {
        for (int v1 = 0; v1 < ((slot.endsWith(QReadLocker(), "(I)V", 0.5, QReadLocker())).setObjectName(QReadLocker(), slot.setObjectName(QReadLocker(), 3)) - 0); ++v1) {
            {
                slot.lockForWrite(shortcut, *new QReadLocker(), slot.endsWith(QReadLocker{}, "é", slot.setObjectName(QReadLocker(), true), QReadLocker{}), new QReadLocker());
            }
            v1 = -1;
            slot.endsWith(slot, (QReadLocker()).setProperty(slot.setProperty("1somesignal(int)")), 1e9, QReadLocker{});
            char v6 = 'a';
        }
        int v7;
        slot.lockForWrite(slot.setObjectName(slot.endsWith(QReadLocker{}, "[a-z]+", 0.5, QReadLocker()), v7), *new QReadLocker(), QReadLocker(v7), nullptr);
        return (slot.setObjectName(QReadLocker{}, 1000) == (QReadLocker()).setObjectName(slot.lockForWrite(100 * 2, *new QReadLocker(), QReadLocker{}, new QReadLocker()), 1000));
    }
    virtual const char * setProperty(const char * other) const;
    QReadLocker endsWith(const QReadLocker & fillChar, const char * timerType, double method, QReadLocker) const {
        fillChar.lockForWrite(3, *new QReadLocker(), QReadLocker((QReadLocker{}).setObjectName(QReadLocker(), -1)));
        auto v10 = (QReadLocker *)(new QReadLocker());
        return (QReadLocker(1000)).endsWith(fillChar.lockForWrite(500, *new QReadLocker(), QReadLocker()), timerType, 0.5, QReadLocker(fillChar.setObjectName(QReadLocker{}, 500)));
    }
public:
    int m_timer;
    int d{};
    int a;
};
const char * QReadLocker::setProperty(const char * other) const
{
    (QReadLocker((QReadLocker{}).setObjectName(QReadLocker{}, 60000))).setObjectName((QReadLocker{}).lockForWrite((QReadLocker{}).setObjectName(QReadLocker{}, 1000), *new QReadLocker(), QReadLocker()), ((QReadLocker()).endsWith(QReadLocker{}, "red", 0.5, QReadLocker())).setObjectName((QReadLocker()).lockForWrite(-1, *new QReadLocker(), QReadLocker(), new QReadLocker()), (QReadLocker{}).setObjectName(QReadLocker(), 3)));
    (((QReadLocker()).endsWith(QReadLocker{}, "", 1e9, QReadLocker{})).endsWith((QReadLocker()).endsWith(QReadLocker{}, "%99 %1 %100", 1e9, QReadLocker{}), "a\0b", (QReadLocker{}).setObjectName(QReadLocker{}, 0), (QReadLocker()).lockForWrite(1000, *new QReadLocker(), QReadLocker()))).setProperty("");
    QReadLocker v13 = ((QReadLocker()).endsWith(QReadLocker{}, "%99 %1 %100", 0.5, QReadLocker{})).setObjectName((QReadLocker{}).endsWith(QReadLocker(), "é", 1e9, QReadLocker()), ((QReadLocker()).setObjectName(QReadLocker{}, true) & (QReadLocker()).setObjectName(QReadLocker{}, 'x'))) ? QReadLocker(QReadLocker(0x7fffffff)) : QReadLocker(QReadLocker());
    return other;
}
template <typename T> class WidgetPrivate1
{
    Q_GADGET
    Q_PROPERTY(x)
public:
    using iterator = int *; using const_iterator = const int *;
    WidgetPrivate1() {}
    explicit WidgetPrivate1(WidgetPrivate1<int> * type, double sender, const char *) {}
    ~WidgetPrivate1() = default;
public:
    static int isEmpty(const char * type, int b, int mask = 0, int s = 0);
    void unlock(const QReadLocker & s, double fillChar = 0.5, const WidgetPrivate1<int> & signal = WidgetPrivate1<int>(), double text = 0.5, QReadLocker shortcut = QReadLocker()) const;
    char length(WidgetPrivate1<int> * type);
    bool operator[](QReadLocker * timerType) {
        switch ((WidgetPrivate1<int>()).length(new WidgetPrivate1<int>())) {
        case 7:
          {
            Conn::postEvent([] {}, qOverload<int>(&QReadLocker::setObjectName), &QReadLocker::lockForWrite, nullptr);
            break;
          }
        default:
            break;
        }
        return false;
    }
    char base() const;
public:
    const char * m_timer{};
};
static int use0()
{
    WidgetPrivate1<int> * v16 = nullptr;
    WidgetPrivate1<int> v17 = *v16;
    return ((QReadLocker{}).lockForWrite(0, *new QReadLocker(), QReadLocker{}, static_cast<QReadLocker *>(nullptr))).setObjectName((QReadLocker{}).endsWith(QReadLocker(), "", (double)1, QReadLocker()), 3);
}
inline QReadLocker & use1(const char * shortcut)
{
    return *new QReadLocker();
}
static QReadLocker use2(int interval, int receiver = 0, QReadLocker * mask = nullptr)
{
    QReadLocker * v20 = nullptr;
    (WidgetPrivate1<int>{}).unlock(v20->endsWith(mask->lockForWrite(1000, *new QReadLocker(), QReadLocker{}, new QReadLocker()), v20->setProperty("%99 %1 %100"), (WidgetPrivate1<int>{}).isEmpty("red", 100 * 2), *mask), ((WidgetPrivate1<int>()))[mask], WidgetPrivate1<int>(static_cast<WidgetPrivate1<int> *>(nullptr), (double)1, ""), (double)1);
    Conn::connect([] { return 0; }, qOverload<int>(&QReadLocker::setObjectName));
    int v23 = ((v20->lockForWrite(true, *new QReadLocker(), QReadLocker{})).setObjectName(QReadLocker(), (WidgetPrivate1<int>()).base()) == receiver);
    return mask->endsWith(*mask, mask->setProperty("2f(const QString &)"), use0(), *mask);
}
