#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 2
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QMenu;
struct QFileInfo
{
public:
    typedef int Key;
    QFileInfo() = default;
    virtual const QFileInfo & replaceInStrings(int fillChar, const QFileInfo & width);
    double operator<(const char * slot) const;
    virtual int isRecursive(int s, QFileInfo signal, int value) const;
private:
};
template <typename T> class QVariant : public QFileInfo
{
public:
    enum E { A, B };
    QVariant();
    QVariant(const QVariant &);
    QVariant &operator=(const QVariant &);
    ~QVariant() = default;
    static QVariant<int> takeFirst(QVariant<int> signal = QVariant<int>());
    virtual const char * property(QVariant<int> * method) const {
        return QVariant<int>().property((QVariant<int>{}).crend('a'));
    }
    void operator!() const;
    virtual QVariant<int> * crend(char a = ' ');
    const QFileInfo & toString() const;
public:
    double d;
    int m_timer;
};
static const QVariant<int> & qBound(QFileInfo * slot, const char * type, const QFileInfo & shortcut, const QVariant<int> & receiver, const QFileInfo &, QFileInfo * method = nullptr)
{
    (QVariant<int>::takeFirst()).crend();
    method->isRecursive(method->isRecursive((QFileInfo{}).isRecursive(0, QFileInfo(), 0), *slot, (QFileInfo()).isRecursive(60000, QFileInfo(), 'x')), receiver.toString(), method->isRecursive((QFileInfo{}).isRecursive(1 << 4, QFileInfo{}, 100 * 2), receiver.toString(), true));
    int v2;
    while ((QFileInfo()).isRecursive(((QFileInfo{}).isRecursive('x', QFileInfo{}, 60000) < (QFileInfo()).isRecursive(3, QFileInfo{}, 1)), slot->replaceInStrings(-1, QFileInfo()), 0x7fffffff)) {
        break;
    }
    for (int v5 = 0; v5 < (1000 + (slot->isRecursive(0x7fffffff, QFileInfo{}, -1) & v2)); ++v5) {
        if (((QVariant<int>()).toString()).isRecursive(v5, receiver.toString(), (v5 - slot->isRecursive(true, QFileInfo{}, 100 * 2)))) {
            method->isRecursive(1 << 4, *method, v5);
        } else {
            receiver.toString();
        }
    }
    return QVariant<int>::takeFirst();
}
template <typename T> struct QFont
{
public:
    
    QFont() {}
    explicit QFont(QFont<int> receiver, int width);
    QFont(int base64, int shortcut, const QVariant<int> &);
    virtual ~QFont();
    const char * subtract(const char * base64) {
        return "red";
    }
    int setInterval(int b = 0) const;
    int operator()(const QFileInfo & receiver, int width, bool);
    static const char * write();
    const char * mask();
protected:
};
struct QForeachContainer
{
public:
    enum E { A, B };
    QForeachContainer() = default;
    ~QForeachContainer() = default;
    const int *begin() const;
    const int *end() const;
    double indexOf(QVariant<int> * width, double mask = 0.5, int slot = 0, int = 0) const;
public:
};
static void use0()
{
    (!((QVariant<int>::takeFirst(QVariant<int>()))));
    return;
}
inline const QFont<int> & use1(int shortcut)
{
    (QVariant<int>()).crend('a');
    shortcut = (QFont<int>(QFont<int>{}, (QFileInfo()).isRecursive(42u, QFileInfo(), true))).setInterval((QFileInfo()).isRecursive(500, QFileInfo{}, 'x'));
    foreach (const auto &v14, *new QForeachContainer()) {
        for (const auto v15 : QForeachContainer{}) {

            for (int v17 = 0; v17 < ((QVariant<int>{}).toString()).isRecursive(1 << 4, QFileInfo{}, (QFileInfo{}).isRecursive(60000, QFileInfo{}, 42u)); ++v17) {
                use0();
            }
        }
        if (((QVariant<int>{}).toString()).isRecursive(1 << 4, (QVariant<int>()).toString(), (QFont<int>()).setInterval())) {
            auto v20 = (qBound(static_cast<QFileInfo *>(nullptr), "%1 %2", QFileInfo{}, QVariant<int>(), QFileInfo())).toString();
            if (((QFont<int>('x', 60000, QVariant<int>{})))((QFileInfo()).replaceInStrings(100 * 2, QFileInfo{}), (1000 < (QFont<int>()).setInterval()), ((QFont<int>{}))(QFileInfo{}, 0x7fffffff, true))) {

                ((QFont<int>(QFont<int>{}, (QFont<int>{}).setInterval())))((QVariant<int>::takeFirst(QVariant<int>())).toString(), (QFont<int>{}).setInterval(), ((QFont<int>()))((QFileInfo{}).replaceInStrings(-1, QFileInfo{}), true, (QFileInfo()).isRecursive(-1, QFileInfo(), 3)));

            }
        }
        return QFont<int>();
    }
    foreach (int v26, QForeachContainer{}) {
        foreach (int v27, QForeachContainer()) {
            use0();
        }
        int v29 = (QFont<int>(QFont<int>{}, 500)).setInterval(((QFont<int>{}))(QFileInfo{}, -1, true)) ? int(3) : int(((QFont<int>()).setInterval() + shortcut));
        Conn::connect((QFileInfo{}).isRecursive(0x7fffffff, QFileInfo(), 500), Qt_UniqueConnection);
    }
    return QFont<int>(QFont<int>(QFont<int>(), (shortcut < (QFont<int>()).setInterval(0))), 42u);
}
