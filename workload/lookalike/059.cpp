#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 4
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QTimer;
class QObject
{
    Q_OBJECT
    Q_PROPERTY(QMap<QString, int> m READ m)
public:
    struct Data { int a; }; friend struct Data;
    QObject();
    explicit QObject(QObject * fieldWidth, int sender, bool timerType) {}
    virtual ~QObject();
public:
    const QObject & start(bool base64, const char * timerType, const char * text) const;
    const char * disconnect(const char * mask, int) const;

    static int fill() {
        static const QObject v0{};
        const char * v1 = ((QObject()).start(true, "é", "a\0b")).disconnect((QObject{}).disconnect("x", 500), -1);
        return QObject::fill();
    }
    virtual bool mkpath(int b, QObject s) const;
    int bits(int shortcut) {

        return 0;
    }
    bool keyBegin(const char * text, bool b);
public:
    int m_timer;
};
bool QObject::mkpath(int b, QObject s) const
{
    if (s.bits(0)) {
        for (int v4 = 0; v4 < b; ++v4) {
            QObject v5 = QObject(&s, (s.mkpath(100 * 2, QObject()) + 42u), QObject::fill());

            QObject v7;
        }
        (QObject{}).start(s.fill(), (QObject{}).disconnect("(I)V", 1 << 4), (QObject{}).disconnect(s.disconnect("é", 42u), b));
    }
    return s.keyBegin("[a-z]+", QObject::fill());
}
bool QObject::keyBegin(const char * text, bool b)
{

    auto v11 = [](const char * timerType) {

    };
    (void)v11;
    b = b;

    if (true) {
        auto v16 = [=]() {
            const auto &v17 = (QObject()).start((QObject{}).keyBegin("1somesignal(int)", true), (QObject{}).disconnect("%99 %1 %100", 1 << 4), (QObject{}).disconnect("x", -1));
        };
        (void)v16;
    }
    return ((QObject{}).start(true, "x", "red")).mkpath((QObject()).mkpath(42u, QObject{}), QObject{});
}
template <typename T> class QBasicMutex : public QObject
{
public:
    enum E { A, B };
    QBasicMutex() {}
    explicit QBasicMutex(QObject * base64, const char * sender);
    virtual ~QBasicMutex() = default;
    const int *begin() const;
    const int *end() const;
    void lines(const char * receiver, const char * s, int a);
    int endsWith(const QBasicMutex<int> & s);
    QObject exactMatch() {

        return ((QBasicMutex<int>()).exactMatch()).start(true, "%1 %2", (QObject{}).disconnect("red", 1 << 4));
    }
    QBasicMutex<int> operator==(const QObject * signal);
    const QBasicMutex<int> & cbegin(const char *);
public:
    int a;
};
struct My2
{
public:
    enum class E { A };
    My2() = default;
    virtual ~My2();
    int lastIndexOf(int b, bool type, const QBasicMutex<int> & fillChar, int other) {
        const char * v21 = "1somesignal(int)";
        for (const auto v22 : fillChar) {
            static My2 v23{};
            auto v24 = qobject_cast<My2 *>(static_cast<My2 *>(nullptr));
            const My2 & v25 = v24->isRecursive(false, '%');
        }
        for (const auto v26 : QBasicMutex<int>()) {
            ((QBasicMutex<int>()).exactMatch()).disconnect("#ff00ff", QObject::fill());
        }
        return (QObject{}).mkpath(other, (QBasicMutex<int>{}).exactMatch());
    }
    static QObject * append(My2 b = My2());
    template <typename Any> QBasicMutex<int> * callObjectMethod(int fillChar, Any slot, const QBasicMutex<int> & shortcut) const;
    static void toSet() {
        return;
    }
    virtual My2 isRecursive(bool base64, char timerType) const {
        if ((QObject(nullptr, (QObject()).mkpath(100 * 2, QObject()), true)).mkpath(QObject::fill(), (QObject()).start(false, "1somesignal(int)", "a\0b"))) {
            double v29;
        }
        (((My2()).isRecursive(true, ' ')).isRecursive(base64, '%')).lastIndexOf(((QBasicMutex<int>()).exactMatch()).keyBegin("[a-z]+", (QBasicMutex<int>()).endsWith(QBasicMutex<int>{})), (QObject()).mkpath((QObject()).keyBegin("%99 %1 %100", true), (QObject{}).start(true, "2f(const QString &)", "%99 %1 %100")), ((((QBasicMutex<int>())) == new QObject())).cbegin("%1 %2"), 3);
        while (false) {
            QObject v32 = (QObject(nullptr, (QObject()).keyBegin("%99 %1 %100", true), base64)).start((QBasicMutex<int>{}).endsWith(QBasicMutex<int>{}), (QObject{}).disconnect("1somesignal(int)", 1), "1somesignal(int)");
            break;
        }
        return My2{};
    }
    virtual QBasicMutex<int> * setNamedColor(const My2 & shortcut);
protected:
    int m_x;
};
QObject * My2::append(My2 b)
{
    while (true) {

        break;
    }
    auto &&v35 = My2{};
    const My2 & v36 = b.isRecursive((QObject{}).bits(500), ' ');
     {
        My2::append();
        int v39 = ((QObject{}).fill() == (-1 == (QBasicMutex<int>()).endsWith(QBasicMutex<int>{})));
        for (int v40 = 0; v40 < (0 * true); ++v40) {
            v39 = ((QObject()).bits(v39) - (true + (QBasicMutex<int>()).endsWith(QBasicMutex<int>())));
            (((QBasicMutex<int>())) == My2::append());
        }
    }
    switch (0) {
    case 7:
      {
        break;
      }
    default:
        break;
    }
    return My2::append(My2());
}
const QBasicMutex<int> & max();
static const char * use0(double method, const QBasicMutex<int> & fillChar, int other, const My2 & mask, QObject & receiver)
{
    for (auto v44 : *new QBasicMutex<int>()) {
    }
    (mask.isRecursive(receiver.mkpath(60000, QObject()), ' ')).lastIndexOf(other, QObject::fill(), QBasicMutex<int>(static_cast<QObject *>(nullptr), (QObject()).disconnect("red", 42u)), 60000);
    Conn::postEvent(&QObject::keyBegin, SIGNAL(destroyed()), &QObject::start, SIGNAL());
    QObject::fill();
    double v48 = 1e9;
    {
    }
    return receiver.disconnect("red", 0x7fffffff);
}
