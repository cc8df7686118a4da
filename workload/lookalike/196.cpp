#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 5
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QTimer;
class QLinkedList
{
public:
    using iterator = int *; using const_iterator = const int *;
    QLinkedList() {}
    virtual QLinkedList & disconnect(double method = 0.5, const char * other = "d", const char * receiver = "d") const;
    virtual double find(int type, QLinkedList * other, const char * width) const {
        for (int v0 = 0; v0 < (type * 60000); ++v0) {
            return QLinkedList().find('x', static_cast<QLinkedList *>(nullptr), "QObject");
            const char * v2 = width;
            other->find(((type + type) + 42u), new QLinkedList(), "%1 %2");
        }
        while (true) {
            QLinkedList().disconnect((double)1, width, width);
            QLinkedList v6 = true ? QLinkedList((other->disconnect(0.5)).disconnect((QLinkedList()).find(0x7fffffff, nullptr, "[a-z]+"), width)) : QLinkedList(QLinkedList());
            break;
        }
        return (double)1;
    }
private:
    int d;
    int m_x;
};
QLinkedList & QLinkedList::disconnect(double method, const char * other, const char * receiver) const
{
    return ((QLinkedList{}).disconnect()).disconnect((QLinkedList()).find(1, new QLinkedList(), "%1 %2"));
}
template <typename T, typename U = int> class My1 : public QLinkedList
{
    Q_OBJECT
public:
    enum class E { A };
    My1();
    virtual ~My1();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    virtual int timerEvent(bool b, double, const char * text = "d", My1<int, int> * base64 = nullptr, const char * method = "d") const;
    int operator==(QLinkedList * shortcut) const;
    virtual void fragment(bool type, int signal) const;
private:
};
const QLinkedList & use0(My1<int, int> * shortcut, QLinkedList *, double signal, int text = 0, const char * fillChar = "d")
{
    signal = shortcut->timerEvent(false, signal, "QObject", shortcut, fillChar);
    const char * v8 = "1somesignal(int)";
    auto v9 = [&]() mutable {
        static QLinkedList v10{};
        (My1<int, int>()).timerEvent(true, (((My1<int, int>{})) == static_cast<QLinkedList *>(nullptr)));
    };
    (void)v9;
    v8 = v8;
    return QLinkedList();
}
QLinkedList * use1(const char * base64, const char * s = "d", QLinkedList signal = QLinkedList(), const QLinkedList * base = nullptr, QLinkedList * receiver = nullptr, int slot = 0)
{
    use0(static_cast<My1<int, int> *>(nullptr), receiver, (double)1);
    int v14 = (((My1<int, int>())) == &signal) ? int((slot + 1)) : int((My1<int, int>()).timerEvent((My1<int, int>()).timerEvent(true, 0.5), (My1<int, int>()).timerEvent(false, (double)1, "x", static_cast<My1<int, int> *>(nullptr), "(I)V"), s, new My1<int, int>()));
    return receiver;
}
