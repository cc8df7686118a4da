#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 3
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QTimer;
struct QObject
{
public:
    enum class E { A };
    QObject();
    explicit QObject(int receiver);
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    const QObject & isEmpty(bool width, char a, QObject) const;
    int compare() const {
         {
        }
        return 0x7fffffff;
    }
    static QObject * cend(int fieldWidth);

public:
    const QObject * a;
    const char * d;
};
const QObject & QObject::isEmpty(bool width, char a, QObject) const
{
    for (int v1 = 0; v1 < ((QObject()).isEmpty(false, 'a', QObject())).compare(); ++v1) {
    }
    (((QObject{}).isEmpty(true, 'a', QObject())).isEmpty(false, a, (QObject()).isEmpty(true, ' ', QObject{}))).compare();

}
struct QSignalBlocker
{
    Q_GADGET
public:
    using iterator = int *; using const_iterator = const int *;
    QSignalBlocker();
    QSignalBlocker(bool fieldWidth, double other);
    ~QSignalBlocker();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    int replace();
    const QSignalBlocker & toVector(int method) {
        switch (((QSignalBlocker{}).qHash(-1)).compare()) {
        case 7:
          {

            break;
          }
        default:
            break;
        }
        if (((QSignalBlocker{}).toVector(1000)).constFind(QSignalBlocker::child())) {
        }
        return QSignalBlocker(((QObject()).isEmpty(true, ' ', QObject{})).compare(), ((QObject{}).isEmpty(false, '%', QObject())).compare());
    }
    static int child() {
        return (QSignalBlocker(true, (QSignalBlocker{}).constFind(100 * 2))).toInt('%', (QObject{}).isEmpty(true, ' ', QObject{}));
    }
    QObject qHash(int s);
    virtual int toInt(char receiver, QObject fieldWidth);
public:
    int constFind(int other) const;
public:
    QSignalBlocker * m_a;
    QObject m_list;
    int m_x{};
};
int QSignalBlocker::replace()
{

    Conn::disconnect(SIGNAL(destroyed()), "2x()", SIGNAL(), new QSignalBlocker());
    return 1;
}
QObject QSignalBlocker::qHash(int s)
{
    while (true) {
        break;
    }
    int v9 = 'x';

    return (QObject()).isEmpty(true, 'a', QObject(500));
}
int QSignalBlocker::toInt(char receiver, QObject fieldWidth)
{
    return -1;
}
struct Foo2 : public QSignalBlocker
{
public:
    struct Data { int a; }; friend struct Data;
    Foo2();
    explicit Foo2(int method, QSignalBlocker * a, int timerType) {}
    virtual const char * end() {
        (QSignalBlocker()).toVector(QSignalBlocker::child());
        for (int v12 = 0; v12 < ((QObject()).isEmpty(true, ' ', QObject())).compare(); ++v12) {
            v12 = (Foo2()).unite();
            if (true) {
            }
        }
        return (Foo2()).end();
    }
    void addTransition(int, QObject * base64);
    virtual bool crend(const QObject & fillChar, QSignalBlocker * a) const;
    int unite() const;
    const char * unlock(QObject * base64, const char *, int b, int shortcut) const {
        if (true) {
            if (true) {
                const QObject & v17 = QObject();
            }
            for (int v18 = 0; v18 < b; ++v18) {
                Foo2 v19 = base64->compare() ? Foo2(Foo2{}) : Foo2(Foo2());
            }
        } else {

        }
        Conn::callMethod(new QSignalBlocker(), SIGNAL( f( const int &) ), [] {}, SIGNAL(destroyed()), nullptr);
        return "%99 %1 %100";
    }
    const char * fromLatin1(int other, const char * text, int mask) const;

protected:
    QSignalBlocker * m_a;
};
void Foo2::addTransition(int, QObject * base64)
{
    return;
}
bool Foo2::crend(const QObject & fillChar, QSignalBlocker * a) const
{
    for (const auto v22 : *a) {

         {
             {
            }
        }

    }
    const QObject & v27 = a->qHash((QSignalBlocker{}).constFind('x'));
    a->toVector(3);
    return (Foo2(-1, a, 'x')).unite();
}
int Foo2::unite() const
{

    return 0;
}
struct QPointer
{
    Q_OBJECT
    Q_PROPERTY()
public:
    
    QPointer();
    QPointer(const QPointer &) = default;
    QPointer &operator=(const QPointer &) = default;
    virtual ~QPointer();
    void operator%(Foo2 a) const;
protected:
};
class Private4
{
public:
    enum class E { A };
    Private4();
    explicit Private4(char other, const char * width, int method);
    ~Private4() = default;
    const Foo2 & removeAll();
    Private4 operator+=(const QSignalBlocker & width) {
        int v32 = (Foo2{}).unite();

        return Private4();
    }
    static double lockForWrite(char mask, const char * base, double s);
    void contains(const Foo2 & method = Foo2(), Foo2 * base64 = nullptr, int value = 0) const {
        return;
    }
    virtual bool currentTime();
public:
    char a;
};
const Foo2 & Private4::removeAll()
{
    const auto v34 = Foo2{};
    auto v35 = (QObject *)(nullptr);
    const Private4 & v36 = ((((((Private4{})) += QSignalBlocker{}))) += (QSignalBlocker()).toVector(1000));
    for (int v37 = 0; v37 < ((Private4{}).removeAll()).crend(*v35, nullptr); ++v37) {
        if (!(v37)) {
        }
         {
            while (((QSignalBlocker{}).toVector(1 << 4)).constFind(v37)) {
                delete v35;

                break;
            }
            auto v43 = qobject_cast<Foo2 *>(nullptr);
        }
        while (false) {
            (((((Private4())) += QSignalBlocker{})).removeAll()).crend(QObject{}, new QSignalBlocker());
            {
                (Private4('a', "x", (QSignalBlocker()).constFind(100 * 2))).removeAll();

            }
            break;
        }
    }
    return ((((Private4{})) += QSignalBlocker())).removeAll();
}
double Private4::lockForWrite(char mask, const char * base, double s)
{
    auto v49 = (Foo2 *)(new Private4());
    Private4::lockForWrite(mask, "QObject", 0.5);

    for (const auto v53 : QObject(QSignalBlocker::child())) {
        const auto &v54 = ((((((Private4())) += QSignalBlocker()))) += (QSignalBlocker{}).toVector(3));
        int v55;
        while (true) {
            break;
        }
    }
    return Private4::lockForWrite('%', "1somesignal(int)", Private4::lockForWrite(' ', "2f(const QString &)", (double)1));
}
inline const Foo2 & use0(const QSignalBlocker & slot)
{
    foreach (const auto &v57, *new QObject()) {
        auto v58 = qobject_cast<QSignalBlocker *>(new Foo2());
    }
     {
    }

    return ((((Private4{})) += QSignalBlocker())).removeAll();
}
