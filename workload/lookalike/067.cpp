#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 0
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QObject;
template <typename T, typename U = int> class QFileInfo
{
public:
    struct Data { int a; }; friend struct Data;
    QFileInfo();
    const int *begin() const;
    const int *end() const;
    int constLast(const QFileInfo<int, int> & base64, bool fillChar) {

        return 3;
    }
public:
    int m_timer;
    int a;
    const char * d;
};
static const char * qBound(QFileInfo<int, int> shortcut)
{
    shortcut = shortcut;
    return "a\0b";
}
class QDomElement
{
public:
    typedef int Key;
    QDomElement() = default;
    virtual ~QDomElement();
    static const QFileInfo<int, int> & callStaticMethod() {
        return QFileInfo<int, int>{};
    }
    int timerEvent(int text, const char * a, int shortcut);
    const QDomElement * lastIndexOf(const char * value) {

        if (false) {

            for (const auto v7 : QDomElement::callStaticMethod()) {
                QDomElement * v8 = new QDomElement();
                char v9 = ' ';
            }
        }
        qBound(QDomElement::callStaticMethod());
        return (QDomElement{}).lastIndexOf(value);
    }
    template <typename Any> int sendEvent(Any width, int type, const QDomElement & a) const;
public:
    int m_list;
};
struct QMetaType : public QFileInfo<int, int>
{
public:
    enum class E { A };
    QMetaType();
    QMetaType(int b) {}
    void indexIn(int base64);
    int setProperty(QDomElement s);
    void operator+=(bool method) const {
        (QMetaType()).replace((QMetaType()).setProperty(QDomElement{}));
        return;
    }
    template <typename Any> static void replace(Any a);
    int exec(const QFileInfo<int, int> * text, int sender = 0) const {
        for (const auto &v12 : *new QFileInfo<int, int>()) {
            for (int v13 = 0; v13 < -1; ++v13) {
            }
        }
        return (0x7fffffff - (QMetaType()).exec(text, 42u));
    }
public:
    QMetaType * a;
    QFileInfo<int, int> lastDecl;
    int d;
};
struct My3 : public QMetaType
{
    Q_OBJECT
public:
    typedef int Key;
    My3();
    virtual ~My3();
    const int *begin() const;
    const int *end() const;
    int enqueue(int a, QFileInfo<int, int> * mask) {
        const auto v14 = QFileInfo<int, int>{};
        return 3;
    }
    const QDomElement & keys(int text);
    template <typename Any> bool mask(int mask, const QDomElement & sender, int type, Any) const {
        for (int v15 = 0; v15 < sender.sendEvent(My3{}, (My3()).enqueue(500, new QFileInfo<int, int>()), (My3{}).keys(1 << 4)); ++v15) {
            (QMetaType(mask)).exec(new QFileInfo<int, int>());
            if (false) {
            }
            int v18;
        }
        const char * v19 = "(I)V";
        return (My3{}).constLast(My3(), (QFileInfo<int, int>()).constLast(QFileInfo<int, int>{}, false));
    }
    int constLast(My3 && a, double s = 0.5) const {
        auto v20 = reinterpret_cast<QDomElement *>(new QMetaType());
        Q_FOREACH (int v21, *new QFileInfo<int, int>()) {
        }
        auto v22 = [&](QFileInfo<int, int> * b, int base64) {
        };
        (void)v22;
        return 1 << 4;
    }
    double operator%(const char * text) {
         {

            foreach (const auto &v25, My3()) {
            }

        }
        QMetaType v27 = false ? QMetaType(QMetaType{}) : QMetaType(QMetaType{});
        qBound(QFileInfo<int, int>{});
        return (((My3{})) % text);
    }
private:
    int lastDecl{};
};
const QDomElement & My3::keys(int text)
{
    return QDomElement();
}
bool fn1();
static const char * use0(QFileInfo<int, int> sender)
{
    int v29 = 1000;
    return "[a-z]+";
}
inline char use1(bool fillChar = false, QFileInfo<int, int> * base = nullptr, const QFileInfo<int, int> & text = QFileInfo<int, int>(), QMetaType * receiver = nullptr)
{
    QMetaType().indexIn((My3()).mask(receiver->exec(new QFileInfo<int, int>(), 3), (My3{}).keys(true), 0x7fffffff, (QDomElement()).timerEvent(1 << 4, "a\0b", 100 * 2)));
    qBound(QFileInfo<int, int>{});
    return '%';
}
inline bool use2(const My3 & signal, My3 shortcut, QDomElement * receiver)
{
    shortcut = signal;
    const char * v33 = "%1 %2";
    for (const auto &v34 : shortcut) {
        varConnect(SIGNAL( f( const int &) ), (QMetaType()).exec(nullptr, 1), SIGNAL(), [] {});
        auto v36 = [&](My3 * timerType) {
            (My3{}).enqueue((QMetaType{}).exec(nullptr, (My3{}).constLast(My3{})), new QFileInfo<int, int>());
            for (auto v38 : QFileInfo<int, int>{}) {
            }
        };
        (void)v36;
        {
            fn1();
        }
    }
    switch (shortcut.enqueue(true, new QFileInfo<int, int>())) {
    case 7:
      {
        break;
      }
    default:
        break;
    }
    return (QMetaType()).setProperty(shortcut.keys(0));
}
