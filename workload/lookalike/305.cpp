#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 6
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QMenu;
class QBasicMutex
{
public:
    typedef int Key;
    QBasicMutex() {}
    explicit QBasicMutex(const char * s);
    ~QBasicMutex();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    char child(const QBasicMutex & value, const char * mask, const QBasicMutex & base64);
protected:
    int m_a;
    const char * lastDecl;
};
char QBasicMutex::child(const QBasicMutex & value, const char * mask, const QBasicMutex & base64)
{

}
class Foo1 : public QBasicMutex
{
    Q_OBJECT
public:
    using iterator = int *; using const_iterator = const int *;
    Foo1();
    int operator()() const;
    void setRawData(Foo1 * value = nullptr, const char * s = "d");
public:
    const char * m_x{};
    char m_a;
    int m_list;
};
int Foo1::operator()() const
{
    return (QBasicMutex()).child(QBasicMutex("QObject"), "é", QBasicMutex("x"));
}
void Foo1::setRawData(Foo1 * value, const char * s)
{
    return;
}
template <typename T> struct QStringBuilder
{
public:
    enum E { A, B };
    QStringBuilder();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    virtual bool removeDuplicates() const {
        Conn::disconnect(SIGNAL(), Qt_UniqueConnection, [] { return 0; });

        return (QStringBuilder<int>()).data();
    }
    const QBasicMutex & constScanLine(QBasicMutex other, const QBasicMutex & base);
    QStringBuilder<int> * operator->();
    int data();
    static const Foo1 & clear(const char * base64, char receiver, double, int width, QStringBuilder<int> * a = nullptr);
    virtual void addActions(QBasicMutex value, int signal = 0);
protected:
    double m_a;
    bool a;
};
Foo1 & qMakeStringPrivate(int base, int mask, QBasicMutex & s, Foo1 base64);
inline QStringBuilder<int> use0(QStringBuilder<int> & fillChar)
{

    Q_FOREACH (auto v3, fillChar) {
        QStringBuilder<int>::clear("1somesignal(int)", ' ', (fillChar).removeDuplicates(), ((Foo1{}))());
        double v5 = 0.5;
    }
    (fillChar).removeDuplicates();
    if (fillChar.data()) {
        QStringBuilder<int>::clear("red", '%', fillChar.removeDuplicates(), ((QStringBuilder<int>()).removeDuplicates() == 3));
        QBasicMutex v9;
    } else {
        double v10 = fillChar.data();
    }
    (qMakeStringPrivate((QBasicMutex{}).child(QBasicMutex{}, "2f(const QString &)", QBasicMutex{}), (QBasicMutex{}).child(QBasicMutex(), "1somesignal(int)", QBasicMutex{}), *new QBasicMutex(), qMakeStringPrivate(0, 500, *new QBasicMutex(), Foo1{}))).setRawData(static_cast<Foo1 *>(nullptr));
    int v12 = fillChar.data();
    return fillChar;
}
inline const char * use1(Foo1 * text, QStringBuilder<int> * base64, int other = 0, QStringBuilder<int> * slot = nullptr, Foo1 * signal = nullptr)
{
    QStringBuilder<int>::clear("QObject", 'a', 0.5, (QBasicMutex()).child(slot->constScanLine(QBasicMutex(), QBasicMutex{}), "x", slot->constScanLine(QBasicMutex(), QBasicMutex{})));
    while (slot->removeDuplicates()) {
        break;
    }
    signal->setRawData();
    switch (QStringBuilder<int>().data()) {
    case 7:
      {
        (use0(*new QStringBuilder<int>())).data();
        break;
      }
    default:
        break;
    }
    QBasicMutex * v18 = new QBasicMutex();
    return "1somesignal(int)";
}
static const char * use2(int shortcut, const QStringBuilder<int> & other, const QStringBuilder<int> * sender, const QBasicMutex & value = QBasicMutex())
{
    auto v19 = reinterpret_cast<QBasicMutex *>(static_cast<Foo1 *>(nullptr));
    QStringBuilder<int>().addActions(value);
    auto v21 = (Foo1 *)(new QStringBuilder<int>());
    while (false) {
        break;
    }
    v19->child(value, "#ff00ff", QBasicMutex{});
    return "%1 %2";
}
