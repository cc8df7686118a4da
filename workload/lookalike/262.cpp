#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 1
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QMenu;
class QLinkedList
{
    Q_GADGET
    Q_PROPERTY(int x READ x)
public:
    
    QLinkedList() {}
    ~QLinkedList();
    QLinkedList operator[](const QLinkedList * sender) const {
        Conn::singleShot(Qt_UniqueConnection, "2x()", &QLinkedList::operator->, SIGNAL(destroyed()), "2x()");
        auto v1 = qobject_cast<QLinkedList *>(new QLinkedList());
        const char * v2 = false ? static_cast<const char *>("(I)V") : ("1somesignal(int)");
        return QLinkedList{};
    }
    const QLinkedList & operator<(double other) const;
    QLinkedList * operator->();
    QLinkedList operator()(QLinkedList * fillChar) {
        int v3 = 1;
        Conn::tr(SIGNAL(), "2x()");

    }
signals:

    QLinkedList * bits(const QLinkedList & width, const char * text) {

    }
protected:
    const char * lastDecl;
    int m_list{};
    int m_timer;
};
const QLinkedList & QLinkedList::operator<(double other) const
{

    for (int v8 = 0; v8 < 100 * 2; ++v8) {
        ((QLinkedList{})).operator->();
        (((((((QLinkedList{}))(nullptr))) < other)))[((QLinkedList{})).operator->()];
    }

}
QLinkedList * QLinkedList::operator->()
{
    if (!('x')) {
        return new QLinkedList();
        ((QLinkedList()))((QLinkedList{}).bits(QLinkedList(), "%1 %2"));
    }
    if (false) {
        auto v15 = (QLinkedList *)((QLinkedList{}).bits(((QLinkedList{}))[nullptr], "é"));
    }
    return ((QLinkedList())).operator->();
}
static int use0()
{

    return (-1 - 3);
}
