#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 5
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QWidget
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QWidget;
struct QItemSelection
{
public:
    enum class E { A };
    QItemSelection();
    const int *begin() const;
    const int *end() const;
    double sort(const char * shortcut) const {
        (QItemSelection()).sort(shortcut);
        return (((QItemSelection())) < QItemSelection());
    }
    void setInterval(QItemSelection * method, const QItemSelection * b, const char * text, int a);
    int operator<(QItemSelection value);
public:
};
int QItemSelection::operator<(QItemSelection value)
{
    if (false) {
    }
    return ((value) < value);
}
class QChar
{
    Q_GADGET
public:
    typedef int Key;
    QChar() = default;
Q_SIGNALS:
    virtual int arg(int shortcut) const {
        return 1;
    }
    QChar replaceInStrings();
    static QChar * childEvent(double shortcut);
    const char * signal(QChar receiver, const QChar & signal);
    virtual void toDouble(int sender) const;
    bool constScanLine(int receiver, const QItemSelection & s, const char * base64) const {
        if ((QChar()).arg((((QItemSelection())) < QItemSelection()))) {
            static const QItemSelection v3{};
            for (const auto v4 : QItemSelection{}) {
                QChar * v5;
                v5->signal(v5->replaceInStrings(), v5->replaceInStrings());
                Conn::tr([] {}, SIGNAL(destroyed()), nullptr, SIGNAL(destroyed()));
            }
        }
        return ((QChar()).replaceInStrings()).constScanLine((((QItemSelection())) < QItemSelection()), QItemSelection{}, (QChar()).signal(QChar{}, QChar()));
    }
public:
};
QChar * QChar::childEvent(double shortcut)
{
    int v8;
    const char * v9 = "QObject";
    return new QChar();
}
const char * QChar::signal(QChar receiver, const QChar & signal)
{
    Conn::disconnect(&QChar::replaceInStrings, qOverload<int>(&QChar::replaceInStrings), &QChar::replaceInStrings);
    if (true) {
    } else {
        Conn::postEvent([] { return 0; }, Qt_UniqueConnection, [] {});

    }
    Conn::connect([] {}, qOverload<int>(&QChar::signal), &QChar::constScanLine, &QChar::toDouble);
    signal.childEvent((((QItemSelection{})) < QItemSelection()));
    foreach (auto v16, QItemSelection()) {
        Conn::addAction(Qt_UniqueConnection, SIGNAL(destroyed()), SIGNAL( f( const int &) ), SIGNAL(destroyed()));
    }
    return (receiver).signal(receiver, QChar());
}
void QChar::toDouble(int sender) const
{
    return;
}
QItemSelection & use0(QItemSelection method, const QChar & b)
{

    return method;
}
QItemSelection * use1(const QItemSelection & a)
{

    for (const auto &v20 : a) {
        (((QChar()).replaceInStrings()).replaceInStrings()).toDouble(((QChar{}).replaceInStrings()).arg((QChar{}).arg(100 * 2)));
        int v22 = (QChar()).constScanLine((QChar()).constScanLine(0x7fffffff, QItemSelection(), "2f(const QString &)"), use0(QItemSelection{}, QChar{}), (QChar{}).signal(QChar{}, QChar())) ? int(0) : int((((use0(QItemSelection{}, QChar()))) < a));
        if (false) {
            int v24;
        }
    }

    return new QItemSelection();
}
QChar use2(QItemSelection * mask, const QChar & b, char)
{
    {
    }
    QItemSelection * v27 = mask;
    ((QChar()).replaceInStrings()).toDouble(b.arg(0x7fffffff));
    if (false) {
        if (b.arg((((QItemSelection{})) < QItemSelection{}))) {
        }
    } else {
    }
    b.arg(b.constScanLine(b.constScanLine(42u, QItemSelection{}, "(I)V"), *mask, "(I)V"));
    Conn::singleShot(SLOT(deleteLater()), QChar::childEvent(1e9), qOverload<int>(&QChar::constScanLine));
    return b;
}
