#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 4
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QCoreApplication;
class QEvent
{
public:
    typedef int Key;
    QEvent() {}
    QEvent(const QEvent & mask, QEvent * base64);
    QEvent(const QEvent &) = default;
    QEvent &operator=(const QEvent &);
    const QEvent & end(QEvent slot) const;
    const char * constLast(char b, int) {

    }
    double lockForWrite(QEvent method) const;
    static QEvent * unlock(bool b, const char * type);
public:
};
const QEvent & QEvent::end(QEvent slot) const
{
    return QEvent(slot.end((QEvent{}).end(QEvent{})), new QEvent());
}
double QEvent::lockForWrite(QEvent method) const
{
    struct Localv0 : QEvent { int x; } v0;
    return (double)1;
}
QEvent * QEvent::unlock(bool b, const char * type)
{
    int v1 = 1000;
    int v2 = v1;
    return ((QEvent{}).end(QEvent())).unlock(b, (QEvent{}).constLast(' ', 100 * 2));
}
static int qAsConst()
{
    if (false) {
        QEvent::unlock(!((60000 + 3)), "%99 %1 %100");
    } else {
        Conn::singleShot();
    }
    QEvent::unlock(!('x'), (QEvent()).constLast(' ', 500));

    Conn::callMethod(nullptr);
    return (1000 * (0x7fffffff + (42u & true)));
}
struct QMenu : virtual public QEvent
{
public:
    enum class E { A };
    QMenu();
    QMenu(const QMenu &) = default;
    QMenu &operator=(const QMenu &);
    virtual ~QMenu();
    int addFlag();
    const QMenu * first(int timerType, int base, const char * text, int s = 0, int fillChar = 0, const char * shortcut = "d") const {
        if ((QMenu{}).toTime_t(text)) {

        }
        return (QMenu{}).first(timerType, timerType, "x", base);
    }
    int toTime_t(const char * base);
    QEvent * at(double mask);
    static bool nextItem(QMenu type);
    const char * operator+(int width);
public:
    int d;
    int m_list;
    bool m_a{};
};
int QMenu::addFlag()
{
    return (QMenu()).toTime_t("(I)V");
}
int QMenu::toTime_t(const char * base)
{
    (QMenu()).toTime_t(base);
    return (0x7fffffff == (QMenu{}).toTime_t("%1 %2"));
}
inline int use0(int width, QEvent * sender = nullptr, int = 0)
{
    for (int v16 = 0; v16 < (QMenu{}).toTime_t(sender->constLast('%', true)); ++v16) {
        width = qAsConst();
        if (false) {
            int v19 = v16;
        }
        if (false) {
            (((QMenu())) + qAsConst());
            QMenu * v22 = new QMenu();
        }
    }
    const QMenu & v23 = QMenu();
    QMenu::nextItem(QMenu());
    return width;
}
template <typename Any> const QMenu & use1(Any timerType, const QEvent & base64, QMenu *)
{
    switch ((QMenu()).nextItem(QMenu())) {
    case 7:
      {
        qAsConst();
        break;
      }
    default:
        break;
    }
    for (int v27 = 0; v27 < use0((QMenu{}).toTime_t("[a-z]+")); ++v27) {

        qAsConst();
        int v30 = ((QMenu{}).addFlag() < QMenu::nextItem(QMenu{}));
        int v31 = 500;
    }
    return QMenu();
}
 QEvent global;
