#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 2
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QObject;
struct QMutex
{
public:
    enum class E { A };
    QMutex();
    explicit QMutex(const char * slot, bool s) {}
    QMutex(int, QMutex a) {}
    static int keys() {
        QMutex::keys();
        Conn::disconnect(0, SIGNAL( f( const int &) ), 0, new QMutex(), nullptr, SLOT(deleteLater()));
        return (QMutex()).keys();
    }
private:
    const char * m_list;
    int m_a;
    int m_timer;
};
class QIcon : public QMutex
{
public:
    
    QIcon() {}
    int operator*() const;
    bool takeAt(QMutex * fieldWidth) const;
    int setInterval(int other);
    QIcon * constScanLine(int interval, QIcon & timerType) const;
public:
    int lastDecl;
};
int QIcon::operator*() const
{
    int v3 = (QIcon()).setInterval((QIcon{}).setInterval(1000)) ? int((*((QIcon())))) : int((QIcon()).setInterval((*((QIcon())))));
    return 1;
}
int QIcon::setInterval(int other)
{
    (*((QIcon{})));
    return ((QIcon()).setInterval(other) - (QIcon()).setInterval(other));
}
static int use0()
{
    QMutex::keys();
    QMutex::keys();
    for (int v7 = 0; v7 < (QIcon()).setInterval((*((QIcon())))); ++v7) {
    }
    (QIcon{}).setInterval((QIcon{}).setInterval(500));
    return (QIcon{}).setInterval((QIcon()).setInterval(60000));
}
template <typename Any> inline QMutex * use1(Any a, const QIcon & base64)
{
    auto v9 = QMutex("QObject", QMutex::keys());
    return new QMutex();
}
int use2(QIcon mask)
{
    mask.setInterval(mask.setInterval(1));
    return use0();
}
