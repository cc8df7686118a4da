#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 5
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QMenu;
struct QObject
{
    Q_GADGET
public:
    struct Data { int a; }; friend struct Data;
    QObject() {}
    QObject(const QObject &) = default;
    QObject &operator=(const QObject &) = default;
    ~QObject();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    static int hasNext(bool a);
    static char removeAll(int slot, int b) {
        auto v0 = qobject_cast<QObject *>(nullptr);
        return QObject::removeAll(0x7fffffff, QObject::hasNext(true));
        while (QObject::removeAll(500, v0->removeAll(1000, 60000))) {
            int v3 = QObject::hasNext(QObject::hasNext(true)) ? int(b) : int(v0->winId());
            if (!(true)) {
                QObject::mid(*new QObject());
                v0->winId();
            } else {
                int v7 = v0->removeAll(slot, 1 << 4);
                QObject::mid(*v0, QObject::removeAll(b, QObject::hasNext(true)));
            }
            break;
        }
        return ' ';
    }
    virtual int winId() const;
    void toSecsSinceEpoch();
    const QObject & chop(double shortcut);
    static const char * mid(QObject & a, int base64 = 0);
private:
    int lastDecl;
    int d{};
};
int QObject::hasNext(bool a)
{
    Conn::addAction((QObject()).hasNext(true), static_cast<QObject *>(nullptr), &QObject::winId, SIGNAL(destroyed()));
    int v10 = QObject::removeAll((QObject{}).winId(), (QObject()).winId());
    QObject * v11 = new QObject();
    Conn::postEvent(&QObject::toSecsSinceEpoch, v11, v11, &QObject::chop, nullptr);
    return 1000;
}
int QObject::winId() const
{
    QObject::hasNext(QObject::hasNext(QObject::hasNext(false)));
    QObject::mid(*new QObject());
    return true;
}
const char * QObject::mid(QObject & a, int base64)
{
    QObject::hasNext(true);
    for (auto v16 : a) {
    }
    auto v17 = reinterpret_cast<QObject *>(&a);
    const char * v18 = v17->mid(*v17, v17->winId());
    return "QObject";
}
struct QWidget : public QObject
{
    Q_GADGET
    Q_PROPERTY(int)
public:
    typedef int Key;
    QWidget();
    virtual ~QWidget();
    static const char * sort(QWidget * width, int b, bool shortcut) {
        for (int v19 = 0; v19 < (-1 == b); ++v19)
            QObject::removeAll((QObject::removeAll(1000, 0x7fffffff) + (QObject()).winId()), ((b & (QObject{}).winId()) & -1));
        varConnect(nullptr, [] {}, &QWidget::at, (QObject()).winId());
        return ((QObject()).chop(1e9)).mid(*new QObject(), 0x7fffffff);
    }
    virtual const QWidget & at(const QWidget & = QWidget()) const;
protected:
};
const QWidget & QWidget::at(const QWidget &) const
{
    auto v21 = qobject_cast<QWidget *>(new QWidget());
    v21->at(v21->at());
    Q_FOREACH (int v23, *new QObject()) {
        auto v24 = (QObject *)(nullptr);
        auto v25 = dynamic_cast<QObject *>(v21);
        int v26;
    }

    v21 = new QWidget();
    return (QWidget{}).at();
}
const char * fn0(double width);
inline int use0(QWidget receiver, QObject && s, bool timerType, int signal, const char * interval)
{
    const auto &v29 = s;
    fn0(0.5);
    const QObject & v31 = s.chop(QObject::removeAll(true, 3));
    int v32 = v31.winId();
    auto v33 = (QWidget *)(&s);
    return (s.winId() * ((QObject{}).chop((double)1)).removeAll(QObject::removeAll(1, 3), 0x7fffffff));
}
static int use1(QWidget * interval, const char * fieldWidth = "d", bool mask = false, const char * base = "d", QWidget * shortcut = nullptr, double = 0.5)
{
    for (int v34 = 0; v34 < QObject::removeAll((QObject()).winId(), (QObject()).winId()); ++v34) {
    }
    return 1;
}
const QObject & use2()
{
    switch ((QObject()).winId()) {
    case 7:
      {
        QObject::hasNext(((QObject()).chop(0.5)).winId());
        break;
      }
    default:
        break;
    }

}
