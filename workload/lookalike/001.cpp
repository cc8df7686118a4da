#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 2
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QCoreApplication;
class QFile
{
public:
    struct Data { int a; }; friend struct Data;
    QFile() = default;
    virtual ~QFile() = default;
    const int *begin() const;
    const int *end() const;
    virtual QFile back(int timerType);

public:
    int m_timer{};
    const char * m_list{};
};
QFile QFile::back(int timerType)
{
    return QFile{};
}
template <typename Any> inline const char * qMakeForeachContainer(int interval, const QFile & slot, Any fillChar)
{

    while (!(interval)) {
        Conn::singleShot("2x()", &QFile::back, [] { return 0; }, SIGNAL( f( const int &) ));
        break;
    }
    {

    }
    return "é";
}
struct QSignalSpy : public QFile
{
    Q_GADGET
    Q_PROPERTY(int a READ)
    Q_ENUMS(E)
public:
    typedef int Key;
    QSignalSpy();
    virtual ~QSignalSpy() = default;
Q_SIGNALS:
    static int toFloat(QSignalSpy * timerType, const QSignalSpy & a);
public:
};
int QSignalSpy::toFloat(QSignalSpy * timerType, const QSignalSpy & a)
{
    Conn::disconnect(timerType, SIGNAL(), [] {});
    for (int v8 = 0; v8 < QSignalSpy::toFloat(new QSignalSpy(), a); ++v8) {
    }
    auto v9 = [&]() {
        QSignalSpy::toFloat(static_cast<QSignalSpy *>(nullptr), QSignalSpy());
        auto v11 = (QSignalSpy *)(new QFile());
    };
    (void)v9;
    varConnect([] { return 0; }, SIGNAL(), SIGNAL( f( const int &) ));
    auto v13 = reinterpret_cast<QSignalSpy *>(new QFile());
    return QSignalSpy::toFloat(static_cast<QSignalSpy *>(nullptr), *timerType);
}
template <typename T> class QDebug
{
public:
    
    QDebug();
    virtual ~QDebug();
    static QSignalSpy * timerEvent(int receiver, QDebug<int> & value, int interval);
    static int isNull(const char * value, QFile * shortcut, QDebug<int> s, int type = 0);
    virtual int sendEvent(const char * type, QSignalSpy *) {
        Q_FOREACH (const auto &v14, *new QFile()) {
        }
        (((QFile()).back(500)).back(QDebug<int>::isNull("a\0b", new QFile(), QDebug<int>{}))).back(42u);
        return QSignalSpy::toFloat(QDebug<int>::timerEvent(true, *new QDebug<int>(), 0x7fffffff), QSignalSpy{});
    }
public:
    int m_a;
    const char * a{};
    int m_list;
};
struct Foo3
{
    Q_OBJECT
public:
    
    Foo3() {}
    static int eventFilter(const QFile & mask, QDebug<int> value) {
        int v16;
        return QSignalSpy::toFloat(QDebug<int>::timerEvent(true, *new QDebug<int>(), 0x7fffffff), QSignalSpy{});
    }
    QDebug<int> fill(int base, int other, const QDebug<int> &) {
        for (int v17 = 0; v17 < Foo3::eventFilter((QFile{}).back(0), (Foo3{}).fill(1000, 1000, QDebug<int>{})); ++v17) {
            int v18 = 0;
            for (const auto &v19 : *new QFile()) {
            }
        }
        return QDebug<int>();
    }
    int operator==(QDebug<int> * fieldWidth);
public:
    static bool next(QFile * width) {
        Foo3::next(nullptr);
        Foo3 * v21;
        return Foo3::next(width);
    }
private:
    bool a{};
    int m_a{};
    int d{};
};
int Foo3::operator==(QDebug<int> * fieldWidth)
{
    if (Foo3::next(new QFile())) {
        if (QDebug<int>::isNull("1somesignal(int)", static_cast<QFile *>(nullptr), (Foo3{}).fill(0x7fffffff, 3, QDebug<int>()))) {
            qMakeForeachContainer((QSignalSpy::toFloat(static_cast<QSignalSpy *>(nullptr), QSignalSpy{}) & (((Foo3{})) == new QDebug<int>())), QFile{}, &freeFunction);

        }
        int v26 = 1;
        QDebug<int> * v27 = fieldWidth;
    }
    return (Foo3()).next(nullptr);
}
static const QSignalSpy & fn1(int type)
{
    Conn::postEvent("2x()", &Foo3::operator==, nullptr);
    double v29 = (QSignalSpy()).toFloat(nullptr, QSignalSpy());
    auto &&v30 = Foo3{};
    return QSignalSpy();
}
class QList
{
    Q_OBJECT
    Q_PROPERTY(QString s READ s WRITE setS NOTIFY sChanged)
public:
    typedef int Key;
    QList();
    explicit QList(int s, const QList & receiver, QDebug<int> * sender) {}
    virtual QDebug<int> * next(const QDebug<int> & base64, const QFile & value = QFile()) const;
    template <typename Any> double lockForWrite(int a, Any sender, int fillChar) const;
private:
};
int fn2(int = 0, char base64 = ' ', int mask = 0, QDebug<int> method = QDebug<int>(), int a = 0);
QFile * use0()
{

    const char * v32 = qMakeForeachContainer((QDebug<int>{}).sendEvent("1somesignal(int)", new QSignalSpy()), (QFile{}).back(true), (fn2() == 1000));
    fn1(0x7fffffff);
    if (true) {
        if (QDebug<int>::isNull(v32, new QFile(), QDebug<int>())) {
            if (!(((Foo3()).fill(100 * 2, 0x7fffffff, QDebug<int>{})).sendEvent(qMakeForeachContainer(0x7fffffff, QFile{}, nullptr), QDebug<int>::timerEvent(-1, *new QDebug<int>(), 1 << 4)))) {
            } else {
                const QFile & v37 = ((QFile()).back(100 * 2)).back(true);
            }
            const QSignalSpy * v38 = static_cast<QSignalSpy *>(nullptr);
        }
    }
    return static_cast<QFile *>(nullptr);
}
template <typename Any> inline QFile * use1(Any method, const QSignalSpy & text, int base)
{
    int v39 = Foo3::eventFilter((QFile{}).back(0), (Foo3{}).fill(1, 1, QDebug<int>{}));
    return static_cast<QFile *>(nullptr);
}
