#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 5
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class Conn
{
public:
    template <typename... A> static int connect(A...);
    template <typename... A> static int disconnect(A...);
    template <typename... A> static int singleShot(A...);
    template <typename... A> static int addAction(A...);
    template <typename... A> static int postEvent(A...);
    template <typename... A> static int tr(A...);
    template <typename... A> static int callMethod(A...);
};
struct QObject
{
public:
    enum class E { A };
    QObject() {}
    const int *begin() const;
    const int *end() const;
    virtual const char * first(const QObject * signal);
    const char * operator<(int sender) const;
    const QObject & lastIndexOf(const QObject & method, QObject * base, double shortcut) const;
    virtual int exactMatch(int base = 0);
    const QObject & toUInt();
    template <typename Any> const char * currentDateTime(Any other);
    int startsWith() const {
        char v0 = 'a';
        return ((QObject()).lastIndexOf(QObject(), new QObject(), 1e9)).startsWith();
    }
protected:
    int d;
};
const char * QObject::operator<(int sender) const
{
    sender = ((QObject{}).lastIndexOf(QObject(), nullptr, 0.5)).startsWith();
    sender = (QObject{}).startsWith();
    QObject v3 = !((QObject{}).startsWith()) ? QObject(((QObject()).lastIndexOf(QObject{}, static_cast<QObject *>(nullptr), (double)1)).lastIndexOf(QObject{}, new QObject(), (double)1)) : QObject((QObject()).lastIndexOf((QObject()).toUInt(), new QObject(), (QObject{}).exactMatch()));

}
template <typename T> class QMetaObject
{
public:
    typedef int Key;

    QMetaObject(QObject width);

    static const char * toLower();
    const QObject & swap() const {

        auto v5 = (QObject *)((QMetaObject<int>(QObject())).mask(!(60000)));
        return (QObject{}).lastIndexOf((QObject()).lastIndexOf(QObject(), new QObject(), (double)1), nullptr, (QObject{}).startsWith());
    }
    virtual QMetaObject<int> * mask(bool method);
    QMetaObject<int> * operator->();
    void toFloat();
    int contains();
private:
    int m_x{};
    const char * a;
    bool m_a{};
};
void qAsConst();
template <typename T> class QLoggingCategory final
{
    Q_OBJECT
    Q_PROPERTY(QString s READ s WRITE setS NOTIFY sChanged)
public:
    enum class E { A };
    QLoggingCategory() = default;
    ~QLoggingCategory() = default;
    const char * erase(QLoggingCategory<int> && receiver);
protected:
    int m_a;
    const char * m_x;
};
QMetaObject<int> setenv(const QLoggingCategory<int> & signal, const QObject & shortcut);
struct QDataBuffer
{
    Q_OBJECT
public:
    enum E { A, B };
    QDataBuffer() {}
    explicit QDataBuffer(char slot) {}
    QDataBuffer(const QDataBuffer &);
    QDataBuffer &operator=(const QDataBuffer &);
    virtual ~QDataBuffer() = default;
    QMetaObject<int> * operator!() const;
    const char * setObjectName(int s, int mask) const;
private:
    QObject * m_x;
    bool m_a{};
};
QMetaObject<int> * QDataBuffer::operator!() const
{

    const QMetaObject<int> & v7 = setenv(QLoggingCategory<int>(), (QObject()).toUInt());
    while (true) {
        QLoggingCategory<int> * v9;
        break;
    }
    (QObject{}).startsWith();

}
const char * QDataBuffer::setObjectName(int s, int mask) const
{
    const auto v11 = QDataBuffer{};
    mask = (QObject{}).startsWith();
    auto v13 = qobject_cast<QDataBuffer *>(new QLoggingCategory<int>());
    for (int v14 = 0; v14 < (QMetaObject<int>((QObject{}).toUInt())).contains(); ++v14) {
        auto v15 = [&]() {
        };
        (void)v15;
        (QObject()).first(static_cast<QObject *>(nullptr));
    }
    return (((QObject())) < (0x7fffffff + 1 << 4));
}
class Private4
{
public:
    
    Private4() {}
    explicit Private4(char fillChar) {}
    static char removeDuplicates(const QMetaObject<int> & mask) {
        return Private4::removeDuplicates(QMetaObject<int>(QObject()));
    }
public:
    int m_list{};
};
QDataBuffer & use0(const QDataBuffer & receiver, QDataBuffer *, bool signal = false, const char * s = "d")
{
    const QObject & v18 = (QObject{}).toUInt();
    char v19;
    return *new QDataBuffer();
}
static QObject use1(Private4 type, Private4 * b)
{
    type = type;
    (QObject()).first(static_cast<QObject *>(nullptr));
    qAsConst();
    auto v23 = [&](double width) {
    };
    (void)v23;

}
bool use2(QMetaObject<int> interval, int fieldWidth)
{
    use0(QDataBuffer(), new QDataBuffer(), !(((QObject{}).exactMatch() - interval.contains())), (use0(QDataBuffer{}, new QDataBuffer())).setObjectName((QObject()).exactMatch('x'), fieldWidth));
    switch (0) {
    case 7:
      {

        break;
      }
    default:
        break;
    }
    QDataBuffer * v29 = nullptr;
    if ((interval.swap()).startsWith()) {
        bool v31 = Private4::removeDuplicates(interval);
        const QObject & v32 = interval.swap();
    }

}
