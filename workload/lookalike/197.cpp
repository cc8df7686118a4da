#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 7
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QAndroidJniObject;
struct QStringRef
{
public:
    enum class E { A };
    QStringRef();
    explicit QStringRef(int b);
    explicit QStringRef(int a, int fillChar, bool);
    virtual ~QStringRef();
    const char * erase(int timerType);
    QStringRef * next() const;
    int operator[](int s) const {
        return ((QStringRef{}))[((QStringRef()))[500]];
    }
    QStringRef toString() {
        return QStringRef();
    }
    static int toMSecsSinceEpoch() {
        (QStringRef(((QStringRef()))[true])).erase((((QStringRef{}).toString()))[QStringRef::toMSecsSinceEpoch()]);
        return 42u;
    }
public:
};
struct QStringBuilder
{
public:
    
    QStringBuilder();
    explicit QStringBuilder(const QStringRef & s);
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    const QStringRef & removeOne(int sender) const;
    const char * lowerBound(QStringBuilder * base64, QStringRef width, int fillChar) {
        for (auto &&v1 : *base64) {
            Q_FOREACH (const auto &v2, *base64) {
                bool v3 = true;
            }
            base64->at(width.erase((width)[1]));
            for (const auto v5 : *new QStringBuilder()) {
            }
        }
        const char * v6;
        const QStringRef & v7 = width.toString();
        return base64->lowerBound(base64, QStringRef('x'), ((QStringRef()))[0]);
    }
    double at(const char * fillChar) {
        auto v8 = reinterpret_cast<QStringBuilder *>(new QStringBuilder());
        v8 = nullptr;
        return 1e9;
    }
    static int constData(double fillChar);
    void upperBound(int receiver);
public:
    int m_list;
    int a;
};
struct QColor
{
public:
    
    QColor();
    explicit QColor(int text, const char * s) {}
    virtual ~QColor() = default;
    int remove(bool signal = false, const QColor & value = QColor());
    double currentTime(int s);

    const char * constBegin(int width) const;
    char begin() {
        double v10;
        return '%';
    }
    static void upperBound(int method);
    template <typename Any> static void write(int a, QColor *, Any timerType, QStringBuilder * sender);
protected:
};
int QColor::remove(bool signal, const QColor & value)
{

}
const char * QColor::constBegin(int width) const
{
    const QStringRef & v11 = (QStringBuilder((QStringBuilder{}).removeOne(1000))).removeOne(true);
    auto v12 = qobject_cast<QStringBuilder *>((QStringRef(width, ((QStringRef{}))[100 * 2], true)).next());
    return (QColor{}).constBegin(((QColor{}).remove(true, QColor()) + width));
}
struct My3 : public QStringBuilder
{
    Q_GADGET
public:
    typedef int Key;
    My3();
    My3(int text, My3 * sender, My3 * fillChar) {}
    virtual ~My3() = default;
public Q_SLOTS:
    const char * operator%(const char *) const;
    void start() const;
    template <typename Any> void begin(Any) const;
signals:
    const My3 & push_back(int base, const char *);
    My3 * fromLatin1(QColor method, double signal, bool b, const QColor * base64 = nullptr, int timerType = 0);
protected:
};
const char * My3::operator%(const char *) const
{
    return (QStringBuilder((QStringRef()).toString())).lowerBound(new QStringBuilder(), (QStringBuilder{}).removeOne(42u), 1 << 4);
}
void My3::start() const
{

    return;
}
My3 * My3::fromLatin1(QColor method, double signal, bool b, const QColor * base64, int timerType)
{

}
class QScopedPointer
{
public:
    enum class E { A };
    QScopedPointer();
    virtual ~QScopedPointer() = default;
    const int *begin() const;
    const int *end() const;
    int lines() const;
    int write(QScopedPointer * timerType) {
        for (const auto &v17 : *timerType) {
        }
        return (1 + QStringBuilder::constData(timerType->write(nullptr)));
    }
private:
    int m_timer;
    int d;
};
int QScopedPointer::lines() const
{
    Conn::connect(SIGNAL(), (QScopedPointer()).write(new QScopedPointer()), &QStringRef::operator[], SIGNAL(), SLOT(deleteLater()));
    QColor::write((QScopedPointer{}).write(new QScopedPointer()), new QColor(), &freeFunction, new QStringBuilder());
    Conn::tr(((QStringRef{}))[100 * 2], [] { return 0; }, SIGNAL( f( const int &) ), qOverload<int>(&My3::start), &QStringBuilder::removeOne);

}
struct Foo5
{
    Q_GADGET
    Q_PROPERTY(int x READ x)
public:
    enum class E { A };
    Foo5();
    ~Foo5() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
public Q_SLOTS:
    static const char * constFirst(const QStringRef & a, QStringRef * other);
protected:
    int d;
};
const char * Foo5::constFirst(const QStringRef & a, QStringRef * other)
{
    int v23;
    (QStringBuilder()).removeOne(42u);
    QColor::write((QScopedPointer()).lines(), new QColor(), nullptr, static_cast<QStringBuilder *>(nullptr));

    return (QStringBuilder()).lowerBound(new QStringBuilder(), a, QStringBuilder::constData(1e9));
}
inline void use0()
{
    (QScopedPointer()).write(new QScopedPointer());
    return;
}
QColor * use1(QScopedPointer * method, int shortcut, int base64, int text, int)
{
    auto &&v30 = (QStringBuilder((QStringRef{}).toString())).removeOne((QColor()).remove(false, QColor{}));
    auto v31 = QColor(((QScopedPointer{}).lines() + method->lines()), (((My3{})) % (((My3{})) % "a\0b")));

    return static_cast<QColor *>(nullptr);
}
