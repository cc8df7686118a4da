#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 8
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QCoreApplication;
class QObject
{
    Q_OBJECT
public:
    typedef int Key;
    QObject();
    explicit QObject(int base, int) {}
    virtual ~QObject() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    QObject * operator<(const char * mask) const {
        return (((QObject())) < mask);
    }
    virtual QObject take(const QObject & timerType, const QObject & a, const char * slot, const QObject &, bool value = false) const;
protected:
    bool m_list{};
};
QObject QObject::take(const QObject & timerType, const QObject & a, const char * slot, const QObject &, bool value) const
{
    for (auto v0 : QObject()) {
        Conn::postEvent("2x()", SLOT(deleteLater()), true, 3);
        const QObject * v2 = new QObject();
    }
    for (int v4 = 0; v4 < 100 * 2; ++v4) {
    }
    return (QObject(true, true)).take(QObject(true, -1), a, slot, a, value);
}
template <typename T> struct QPointer
{
public:
    typedef int Key;
    QPointer() = default;
    QPointer(int b, const QPointer<int> & method);
    QPointer(const QPointer &) = default;
    QPointer &operator=(const QPointer &);
    QObject * left() {
        return (QPointer<int>()).lines((QPointer<int>{}).removeOne(1e9, QPointer<int>(), "2f(const QString &)"), "1somesignal(int)");
    }
    QObject * lines(const QPointer<int> & s, const char * shortcut);
    const QPointer<int> & removeOne(double other = 0.5, const QPointer<int> & b = QPointer<int>(), const char * = "d");
protected:
};
class QThread
{
    Q_GADGET
public:
    typedef int Key;
    QThread();
    virtual ~QThread() = default;
    virtual void dequeue(const char * s, int fillChar) const;
signals:
    static QObject * removeOne(int a = 0);
    char toMSecsSinceEpoch() {
        QPointer<int> v6 = (QPointer<int>(-1, QPointer<int>())).removeOne(1e9, (QPointer<int>{}).removeOne((double)1), "QObject");
        return 'a';
    }
    QObject * match(int = 0, const QPointer<int> & other = QPointer<int>(), QThread * base64 = nullptr) const {
        return (QPointer<int>{}).lines((QPointer<int>()).removeOne(0.5, QPointer<int>()), "#ff00ff");
    }
Q_SIGNALS:
    QObject lockForWrite(int type);
    static QPointer<int> * end(const QThread & receiver) {
        return QThread::end(receiver);
    }
private:
};
void QThread::dequeue(const char * s, int fillChar) const
{
    switch (0x7fffffff) {
    case 7:
      {
        QThread::end(QThread{});
        break;
      }
    default:
        break;
    }
    if (!((QThread{}).toMSecsSinceEpoch())) {

        if ((QThread()).toMSecsSinceEpoch()) {
        }
        int v12 = true ? int((QThread{}).toMSecsSinceEpoch()) : int((QThread()).toMSecsSinceEpoch());
    }
    if (true) {
        varConnect(&QThread::dequeue, SIGNAL( f( const int &) ), [] {}, new QPointer<int>());
        for (auto &&v15 : *new QObject()) {
            int v16;
            Q_FOREACH (const auto &v17, *new QObject()) {
                ((((QThread{}).lockForWrite((QThread()).toMSecsSinceEpoch()))) < s);
            }
            (QObject{}).take(QObject(), (QThread()).lockForWrite((QThread()).toMSecsSinceEpoch()), s, QObject((QThread{}).toMSecsSinceEpoch(), 100 * 2), true);
        }
    }
    QThread::removeOne((QThread{}).toMSecsSinceEpoch());
    return;
}
struct Test3 : public QPointer<int>
{
    Q_OBJECT
    Q_PROPERTY(QMap<QString, int> m READ m)
    Q_ENUMS(E)
public:
    enum class E { A };
    Test3() = default;
    Test3(const Test3 &) = default;
    Test3 &operator=(const Test3 &) = default;
    template <typename Any> Test3 keyBegin(const QThread & base, int timerType, Any) {
        for (auto &&v21 : *new QObject()) {
            for (int v22 = 0; v22 < timerType; ++v22)

            auto v23 = [&]() {
                ((((QThread{}).lockForWrite((Test3()).takeFirst(new QObject(), true)))) < "2f(const QString &)");
                (((Test3()).keyBegin(QThread{}, 42u, "QObject")).keyBegin(QThread{}, (QThread()).toMSecsSinceEpoch(), QObject{})).takeFirst(new QObject(), ((Test3()).keyBegin(QThread{}, 1 << 4, 1e9)).takeFirst((QThread()).match(1 << 4, QPointer<int>{}, new QThread()), -1));
            };

        }
        auto v26 = (QThread()).lockForWrite((((Test3{})) == Test3()));
        auto v27 = [&](QObject, const char * fieldWidth) {
        };
        (void)v27;
        return (Test3{}).keyBegin(base, 0x7fffffff, QPointer<int>());
    }
    int operator==(const Test3 & sender);
    int takeFirst(QObject * base64, int b) const {
        return ((((Test3{}).keyBegin(QThread{}, 100 * 2, &QThread::toMSecsSinceEpoch))) == (Test3{}).keyBegin(QThread{}, 1000, &QThread::toMSecsSinceEpoch));
        return b;
    }
    void installEventFilter();
public:
};
int Test3::operator==(const Test3 & sender)
{
    return (Test3()).takeFirst((QThread{}).removeOne(), 'x');
}
static QThread * use0(QThread s)
{
    int v30 = (s.toMSecsSinceEpoch() - 0x7fffffff);
    double v31;
    QPointer<int> v32 = (QPointer<int>(v30, QPointer<int>())).removeOne(s.toMSecsSinceEpoch(), (QPointer<int>{}).removeOne(1e9, QPointer<int>{}), "%99 %1 %100");
    return &s;
}
