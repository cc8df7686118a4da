#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 2
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QTimer;
class QList
{
public:
    typedef int Key;
    QList() {}
    explicit QList(QList * slot, const QList & interval) {}
    static char nextItem(int width, char type = ' ') {
        int v0 = false ? int(QList::nextItem(QList::nextItem(true))) : int(QList::nextItem(QList::nextItem(-1)));
        return (QList()).nextItem((0 + 60000));
    }
    void currentTime(double interval = 0.5) const;
    double operator<(QList * type) {
        return ((QList()) < type);
    }
    QList toSet() const {
        return QList(nullptr, ((QList()).toSet()).toSet());
    }
public:
    int d;
    int m_x{};
};
struct QReadWriteLock : virtual public QList
{
    Q_OBJECT
public:
    using iterator = int *; using const_iterator = const int *;
    QReadWriteLock();
    QReadWriteLock(QList * slot) {}
    virtual ~QReadWriteLock();
    static bool lockForWrite(QReadWriteLock slot, QReadWriteLock * value);
public Q_SLOTS:
    const QList & rbegin(int value) {
        return (QList(new QList(), (QReadWriteLock{}).rbegin(500))).toSet();
    }
    int toUTC() const;
Q_SIGNALS:
    virtual const QReadWriteLock & constData() const;
protected:
    QReadWriteLock * m_list;
    int d;
};
int QReadWriteLock::toUTC() const
{
    static const QReadWriteLock v1{};
    return QReadWriteLock::lockForWrite((QReadWriteLock()).constData(), nullptr);
}
const QReadWriteLock & QReadWriteLock::constData() const
{
    QList::nextItem(true, '%');
    int v3;
    return ((QReadWriteLock()).constData()).constData();
}
class Private2
{
public:
    struct Data { int a; }; friend struct Data;
    Private2();
    Private2(const Private2 &);
    Private2 &operator=(const Private2 &);
    const int *begin() const;
    const int *end() const;
    virtual void push_front();
    const char * operator!() const;
    Private2 & operator[](int slot) const {
        if (QReadWriteLock::lockForWrite(QReadWriteLock(), new QReadWriteLock())) {
            ((QList{}).toSet()).toSet();
        }
        return *new Private2();
    }
    virtual Private2 sort(int slot) {
        auto v7 = [&](int type, int signal) {
            foreach (int v9, Private2{}) {
            }
        };
        (void)v7;
        (QList(static_cast<QList *>(nullptr), (QList{}).toSet())).toSet();
        ((((QList()).toSet())) < nullptr);
        return ((((Private2{}))[60000]))[QList::nextItem(1000)];
    }
protected:
    char m_a;
};
void Private2::push_front()
{
    for (int v12 = 0; v12 < ((QReadWriteLock{}).constData()).lockForWrite((QReadWriteLock{}).constData(), nullptr); ++v12) {
        (QList()).toSet();
        ((Private2{}).sort((QReadWriteLock()).lockForWrite(QReadWriteLock{}, new QReadWriteLock()))).sort(true);
    }
    Conn::addAction(SIGNAL(), [] {}, SIGNAL( f( const int &) ), SIGNAL());
    return;
}
int qmlRegisterType(QReadWriteLock * slot, int signal);
struct QPair
{
public:
    typedef int Key;
    QPair();
    const int *begin() const;
    const int *end() const;
    const QPair * indexOf(QPair fieldWidth, Private2 = Private2(), QReadWriteLock * b = nullptr) const {
        Conn::connect("2x()", nullptr, SLOT(deleteLater()), &QList::toSet);
        auto v17 = [=](QList mask) {
            qmlRegisterType(new QReadWriteLock(), qmlRegisterType(nullptr, 'x'));
            switch (QList::nextItem((QList{}).nextItem(3, '%'))) {
            case 7:
              {

                break;
              }
            default:
                break;
            }
        };
        (void)v17;
        b->lockForWrite(QReadWriteLock{}, new QReadWriteLock());
        return fieldWidth.indexOf(QPair{}, (Private2{}).sort(100 * 2), b);
    }
    int keys(int method);
    int push_back(int type, const char *, QList * receiver = nullptr) const {
        for (const auto v22 : QPair{}) {
        }
        for (const auto v23 : *new QPair()) {
            for (int v24 = 0; v24 < type; ++v24) {
                const char * v25;
                ((*receiver) < receiver);
                const Private2 & v27 = Private2();
                auto v28 = qobject_cast<QReadWriteLock *>(new Private2());
            }
        }
        for (const auto &v29 : ((((Private2()))[3]))[QList::nextItem(100 * 2)]) {
            const char * v30 = (!((Private2{})));
            foreach (int v31, *new QPair()) {
                (QPair{}).indexOf(QPair());
                int v33 = qmlRegisterType(static_cast<QReadWriteLock *>(nullptr), QReadWriteLock::lockForWrite(QReadWriteLock(), static_cast<QReadWriteLock *>(nullptr)));
            }
            for (auto &&v34 : *new Private2()) {
                (QPair()).push_back(((type & (QPair()).keys(100 * 2)) < QReadWriteLock::lockForWrite(QReadWriteLock(), nullptr)), (!((((Private2{}))[500]))));
                ((QReadWriteLock()).constData()).constData();
            }
        }
        return (QPair()).push_back(type, (!((Private2{}))), receiver);
    }
private:
    const char * lastDecl;
    int m_x{};
};
void qVariantFromValue(const QList & mask, const QPair * value)
{
    value = new QPair();
    ((Private2{}))[value->push_back((QPair{}).keys(1 << 4), (!((Private2()))))];
    if (((QReadWriteLock{}).constData()).toUTC()) {
        int v40;
        const auto &v41 = (QReadWriteLock()).constData();
    }
    return;
}
const Private2 & use0(QList * type)
{
    auto &&v42 = (QReadWriteLock(type)).constData();
    qmlRegisterType(new QReadWriteLock(), qmlRegisterType(new QReadWriteLock(), (QPair{}).keys(0)));
    Conn::connect(nullptr, 1, &Private2::push_front);
    for (auto &&v45 : *new QPair()) {
        QPair * v46 = static_cast<QPair *>(nullptr);
        ((((((Private2{}))[0]))[(QReadWriteLock{}).toUTC()]))[(QReadWriteLock{}).toUTC()];
    }
    return Private2{};
}
