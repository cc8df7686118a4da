#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 4
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QAndroidJniObject;
class QObject
{
public:
    typedef int Key;
    QObject();
    virtual ~QObject() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    virtual int lock(QObject receiver);
    int constBegin(bool base, QObject * slot) {
        const char * v0;
        return slot->constBegin(slot->constBegin(true, static_cast<QObject *>(nullptr)), slot);
    }
    const char * operator*() const;
protected:
    QObject * d;
    double m_a{};
};
template <typename T> struct Foo1 : virtual public QObject
{
public:
    enum E { A, B };
    Foo1() {}
    virtual ~Foo1() = default;
    int toUcs4(const Foo1<int> & value = Foo1<int>()) const {
        char v1;
        ((value) == nullptr);
        return (QObject{}).lock(QObject());
    }
    int write(const Foo1<int> & signal);
    static const QObject & append(Foo1<int> * a);
    Foo1<int> addFlag(Foo1<int> * method, QObject * receiver);
    static Foo1<int> * swap(const QObject * other, const QObject & sender);
    const char * operator==(QObject * a) const;
protected:
    const char * m_a;
};
class QHash
{
public:
    
    QHash();
    virtual ~QHash();
    int setInterval(QObject * method) const;
    const Foo1<int> & keyBegin();
    QHash operator*() {
        for (const auto &v3 : QObject()) {
            auto v4 = reinterpret_cast<Foo1<int> *>(Foo1<int>::swap(nullptr, QObject()));
            QHash v5 = false ? QHash((*(((*((QHash()))))))) : QHash((*((QHash{}))));
        }
        return (*((QHash{})));
    }
    int chop() const;
    virtual int upperBound() const {
        double v7 = (QHash{}).setInterval(new QObject());
        Foo1<int>::swap(new QObject(), QObject{});
        return -1;
    }
public:
    Foo1<int> lastDecl;
    const char * a;
    double m_x;
};
struct Private3 : virtual public Foo1<int>
{
public:
    enum E { A, B };
    Private3() {}
    virtual ~Private3();
    virtual const char * count(bool mask) {
        if ((Foo1<int>{}).write((Foo1<int>{}).addFlag(nullptr, nullptr))) {
        } else {
        }
        while (false) {
            (QHash{}).upperBound();
            char v12 = 'a';
            break;
        }
        const char * v13 = true ? static_cast<const char *>((((Foo1<int>{})) == nullptr)) : ((Private3()).count(false));
        return (*((Foo1<int>::append(new Foo1<int>()))));
    }
    template <typename Any> static int addTransition(Any b, const QHash & fillChar, int text);
private:
};
static void use0(const char * receiver, int)
{
    auto &&v14 = Private3();
    for (const auto &v15 : Foo1<int>::append(Foo1<int>::swap(static_cast<QObject *>(nullptr), QObject()))) {
        if (((*((QHash{})))).chop()) {
            Conn::postEvent("2x()", SIGNAL( f( const int &) ), nullptr, Qt_UniqueConnection);
            auto v18 = [=](bool mask) {
                ((QHash{}).keyBegin()).toUcs4();
                ((*(((*((QHash()))))))).setInterval(new QObject());
            };
            (void)v18;
        } else {
        }
        if (true) {
            (Foo1<int>()).toUcs4();
            int v23 = Private3::addTransition((Private3{}).count(false), (*((QHash{}))), (QHash{}).setInterval(nullptr));
        }
    }
    if (!((1000 & 1000))) {

        (Private3()).count(((QHash{}).keyBegin()).toUcs4((QHash{}).keyBegin()));
    }
    for (int v27 = 0; v27 < (Foo1<int>{}).write((QHash()).keyBegin()); ++v27) {
        foreach (const auto &v28, QObject{}) {
            ((*(((*((QHash{}))))))).setInterval(new QObject());
        }
        ((*(((*((QHash()))))))).chop();
    }
    const QHash & v32 = (*(((*((QHash()))))));
    for (int v33 = 0; v33 < Private3::addTransition(&QHash::setInterval, v32, 1000); ++v33) {
        const char * v34 = (*((Foo1<int>::append(new Foo1<int>()))));
        Conn::connect("2x()", "2x()", new Foo1<int>(), &QHash::upperBound, SLOT(deleteLater()), nullptr);
    }
    return;
}
inline const Private3 & use1()
{
    int v36 = ((*((QHash())))).upperBound();
    for (const auto &v37 : Foo1<int>::append(Foo1<int>::swap(static_cast<QObject *>(nullptr), QObject()))) {
        ((((QHash{}).keyBegin())) == static_cast<QObject *>(nullptr));
        for (auto &&v39 : (Foo1<int>()).append(Foo1<int>::swap(nullptr, QObject{}))) {
            const char * v40 = (*((Foo1<int>::append(nullptr))));
            auto v41 = reinterpret_cast<QObject *>(static_cast<QObject *>(nullptr));
        }
    }
    if (!(0)) {
        auto v43 = reinterpret_cast<Private3 *>(new QHash());
        (((Foo1<int>())) == static_cast<QObject *>(nullptr));
    }

    return Private3{};
}
static int use2(const char * signal = "d")
{
    if (((*((QHash())))).setInterval(new QObject())) {
    }
    return (Private3::addTransition(0, (*((QHash{}))), (QObject{}).constBegin(true, new QObject())) * 'x');
    int v48 = (Foo1<int>{}).write((Foo1<int>{}).addFlag(new Foo1<int>(), nullptr));
    return 500;
}
