#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 6
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QMenu;
class QBasicMutex
{
public:
    
    QBasicMutex();
    const int *begin() const;
    const int *end() const;
    static int fragment(const char * shortcut = "d");
protected:
};
int QBasicMutex::fragment(const char * shortcut)
{
    foreach (const auto &v0, QBasicMutex{}) {
        for (auto &&v1 : QBasicMutex()) {
            QBasicMutex v2 = QBasicMutex();
        }
        while ((QBasicMutex()).fragment()) {
            for (auto v4 : *new QBasicMutex()) {
            }
            const char * v5;
            break;
        }
    }
    return QBasicMutex::fragment();
}
int qSwap(const QBasicMutex & b);
inline void use0(QBasicMutex * text, QBasicMutex fillChar, double)
{
    text = new QBasicMutex();
    return;
}
static const char * use1(const char * width)
{
    QBasicMutex::fragment();
    QBasicMutex::fragment(width);
    if (true) {
        QBasicMutex::fragment();
        use0(new QBasicMutex(), QBasicMutex(), 0.5);
    }
    while (QBasicMutex::fragment()) {
        for (const auto &v13 : QBasicMutex{}) {
            QBasicMutex v14 = QBasicMutex();
            int v15 = QBasicMutex::fragment();
        }
        auto v16 = (QBasicMutex *)(new QBasicMutex());
        break;
    }
    return width;
}
QBasicMutex use2(const char * other = "d", const QBasicMutex & = QBasicMutex())
{
    auto v17 = [&]() {
        auto &&v18 = QBasicMutex();
        QBasicMutex::fragment();
    };
    (void)v17;
    for (auto &&v20 : *new QBasicMutex()) {
        auto v21 = (QBasicMutex *)(new QBasicMutex());
    }
    for (auto &&v22 : QBasicMutex()) {
        other = other;
        Q_FOREACH (int v24, QBasicMutex{}) {
        }
    }
    QBasicMutex * v25 = nullptr;
    return QBasicMutex();
    auto v27 = *v25;
    return QBasicMutex{};
}
static const QBasicMutex global;
