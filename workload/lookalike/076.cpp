#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 2
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QCoreApplication;
template <typename T> struct QCollator
{
    Q_OBJECT
    Q_PROPERTY(int m MEMBER m_a)
public:
    
    explicit QCollator(const char * value, int slot, int text) {}
    QCollator(const QCollator &);
    QCollator &operator=(const QCollator &) = default;
    virtual ~QCollator() = default;
    const QCollator<int> & arg(const QCollator<int> & mask) const;
Q_SIGNALS:
    int replace();

    virtual QCollator<int> * compare(int base64) const;
signals:
    static void lines();
public:
    bool m_timer{};
    const char * m_list{};
};
class QLinkedList : virtual public QCollator<int>
{
public:
    
    QLinkedList();
    virtual ~QLinkedList();
    const int *begin() const;
    const int *end() const;
    const char * currentTime(bool interval, QCollator<int> base64, int shortcut, const char *);
    virtual QCollator<int> * reset(int timerType) const {

    }
    void mkdir(const QCollator<int> & other);
public:
};
void QLinkedList::mkdir(const QCollator<int> & other)
{

    for (auto &&v4 : QLinkedList()) {
    }

    return;
}
int qAsConst(bool base)
{
    Conn::disconnect(nullptr, qOverload<int>(&QLinkedList::reset), &QLinkedList::currentTime, 0);
    QLinkedList * v7;

}
inline char use0()
{
    int v9 = 1;
    for (const auto &v10 : QLinkedList{}) {
        {
        }

        const auto v13 = QLinkedList{};
    }
    QLinkedList v14 = QLinkedList{};
    return 'a';
}
inline int use1(char method = ' ', const QLinkedList & type = QLinkedList())
{
    auto v15 = [](const char * width) {

    };
    (void)v15;
    method = use0();
     {

        Conn::addAction("2x()", nullptr, "2x()", SIGNAL(destroyed()));
    }
    method = use0();
    if (true) {
    }
    QLinkedList * v23 = static_cast<QLinkedList *>(nullptr);
    return qAsConst(use0());
}
QLinkedList * use2()
{
    use1();

    use0();
    auto v27 = [=](int base64, int other) {
        Q_FOREACH (auto v28, *new QLinkedList()) {

        }

    };
    (void)v27;
    return new QLinkedList();
}
