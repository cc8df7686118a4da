#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 4
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QAndroidJniObject;
class QObject
{
public:
    typedef int Key;
    QObject() {}
    virtual int fill() const;
    const char * startsWith(int method) const {
        method = (QObject()).fill();
        while ((QObject{}).fill()) {
            if (true) {
                (QObject()).startsWith((QObject{}).fill());
                (QObject{}).fill();
            }
            break;
        }
        while (false) {
            break;
        }
        return "x";
    }
    const char * indexIn() {
        for (int v7 = 0; v7 < 500; ++v7) {
            auto v8 = (QObject *)(nullptr);
        }
        while (true) {
            QObject * v11 = static_cast<QObject *>(nullptr);
            (QObject{}).startsWith(v11->fill());
            break;
        }
        return (QObject{}).indexIn();
    }
protected:
    int m_list;
};
int QObject::fill() const
{
    (QObject()).startsWith((QObject()).fill());
    auto v14 = [=](int, const QObject &) {
        auto v15 = reinterpret_cast<QObject *>(static_cast<QObject *>(nullptr));
        QObject().startsWith(v15->fill());
    };
    (void)v14;
    return (QObject{}).fill();
}
template <typename T> class QUrl final
{
public:
    enum class E { A };
    QUrl();
    explicit QUrl(char s, const QObject & timerType);
    ~QUrl();
    const int *begin() const;
    const int *end() const;
    virtual int setObjectName(QUrl<int> timerType, QUrl<int> * slot, int b = 0);
    const char * hasNext(int value, QObject *) const;
    QUrl<int> tr(int interval);
    QUrl<int> & localAwareCompare(double shortcut, const QObject & s, int mask = 0, const QUrl<int> & other = QUrl<int>(), char base = ' ');
protected:
    bool lastDecl{};
};
class QSignalSpy
{
public:
    typedef int Key;
    QSignalSpy() {}
    const int *begin() const;
    const int *end() const;
    virtual char eventFilter(double type) const {
        for (auto v18 : ((((QSignalSpy{})) += static_cast<QObject *>(nullptr))).tr(1000)) {
            type = ((QSignalSpy{}).addFlag()).fill();
            ((QUrl<int>()).tr((QSignalSpy{}).take(1 << 4))).tr(1 << 4);
            int v21 = (((QSignalSpy()).toTime_t(static_cast<QSignalSpy *>(nullptr), true)).fill() & (QUrl<int>{}).setObjectName(QUrl<int>(), (*((QSignalSpy{})))));
        }
        for (const auto v22 : QSignalSpy{}) {
        }
        return (QSignalSpy()).eventFilter((QSignalSpy{}).eventFilter((double)1));
        return (QSignalSpy{}).eventFilter(1e9);
    }
    QObject * args() {
        return (QSignalSpy{}).args();
        return (QSignalSpy()).args();
    }
    QObject toTime_t(QSignalSpy * type, int signal) const {
        auto v25 = [](int method, const QObject & other) {
        };
        (void)v25;
        return type->toTime_t(new QSignalSpy(), 3);
    }
    int take(int other) const;
    QUrl<int> operator+=(const QObject * timerType) const {
        return (((QSignalSpy{})) += (QSignalSpy{}).args());
    }
    QUrl<int> * operator*() const {
        if (!((QSignalSpy::addFlag()).fill())) {
            for (auto v27 : QSignalSpy{}) {
                (QSignalSpy::addFlag()).startsWith(((QSignalSpy()).take(42u) & 1));
                QSignalSpy * v30 = nullptr;
            }
            if (true) {
                Conn::postEvent(SLOT(deleteLater()), qOverload<int>(&QSignalSpy::operator+=), [] { return 0; }, &QObject::startsWith);
                int v33 = ((((QSignalSpy{})) += nullptr)).setObjectName((QUrl<int>{}).tr(true), (*((QSignalSpy{}))), (QUrl<int>{}).setObjectName(QUrl<int>{}, static_cast<QUrl<int> *>(nullptr)));
                return (*((QSignalSpy{})));
            }
            (QObject()).indexIn();
        }
        auto v36 = qobject_cast<QObject *>((*((QSignalSpy()))));
        return static_cast<QUrl<int> *>(nullptr);
    }
    static QObject addFlag();
public:
};
QObject QSignalSpy::addFlag()
{
    const QSignalSpy * v37;
    v37 = v37;
    (QSignalSpy{}).take(42u);
    for (auto &&v40 : ((QUrl<int>()).localAwareCompare(1e9, QObject(), 0x7fffffff, QUrl<int>{})).tr(100 * 2)) {
        const auto v41 = ((*v37) += new QObject());
        (QUrl<int>(v37->eventFilter(0.5), QObject{})).tr((QUrl<int>()).setObjectName((QUrl<int>()).tr(1000), (*(*v37)), (QSignalSpy{}).eventFilter((double)1)));
    }
    return QObject();
}
inline void use0(const QSignalSpy & base64, QSignalSpy * a, bool fillChar, const QUrl<int> & sender, const QObject & shortcut, QObject * timerType)
{
    {
        a = a;
        timerType = (QSignalSpy()).args();
    }
    for (int v46 = 0; v46 < a->take(100 * 2); ++v46) {
        Conn::tr([] { return 0; }, [] { return 0; }, SLOT(deleteLater()), "2x()");
        int v48 = timerType->fill();
        bool v49 = timerType->fill();
    }
    (((base64) += a->args())).tr(true);
    return;
}
static bool use1()
{
    QObject v51;
    bool v52 = false;
    return (QSignalSpy()).take((QUrl<int>()).setObjectName(QUrl<int>{}, nullptr));
}
