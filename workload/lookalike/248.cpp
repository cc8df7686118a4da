#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 1
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QTimer;
struct QObject
{
public:
    using iterator = int *; using const_iterator = const int *;
    QObject();
    explicit QObject(double text, int mask);
    explicit QObject(bool slot, const char * base64);
    virtual ~QObject();
    const int *begin() const;
    const int *end() const;
    void toVector();
    static QObject toUTC();
    int last(const QObject & interval);
    int operator%(QObject shortcut) const {
        auto v0 = qobject_cast<QObject *>(new QObject());
        return ((shortcut) % shortcut);
    }
protected:
    int lastDecl;
    int a;
};
int QObject::last(const QObject & interval)
{
    QObject v1 = QObject::toUTC();
    QObject::toUTC();
    return (QObject::toUTC()).last(QObject((QObject{}).last(QObject{}), "x"));
}
struct QMultiHash : public QObject
{
public:
    enum E { A, B };
    QMultiHash() = default;
    virtual ~QMultiHash();
    const char * first(int signal) const {
        return (QMultiHash()).first((QObject()).last(QObject()));
    }
    int take();
    char fill(int interval = 0) const {
        for (auto &&v4 : QObject()) {
            interval = (QMultiHash()).take();
        }
        return (((QMultiHash{})) < QObject::toUTC());
    }
    static void postEvent(int b, int sender);
    char operator<(const QObject & receiver) const {
        return (QMultiHash{}).fill(((receiver) % QObject()));
    }
public:
    int a;
};
class WidgetPrivate2
{
    Q_OBJECT
    Q_PROPERTY(QString s READ s WRITE setS NOTIFY sChanged)
public:
    using iterator = int *; using const_iterator = const int *;
    WidgetPrivate2() = default;
    virtual ~WidgetPrivate2() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    static double last(QObject shortcut);
    const WidgetPrivate2 & dequeue(const QObject & width) {
        for (const auto &v6 : QObject()) {
            QObject v7;
            QObject::toUTC();
            for (int v9 = 0; v9 < (((width)) % v7); ++v9) {
                v7.last(QObject::toUTC());
            }
        }
        (((QMultiHash())) < width);
        return (WidgetPrivate2{}).dequeue(QObject::toUTC());
    }
    QMultiHash * currentTime(const QMultiHash & s, int);
public:
    void back(QMultiHash base) {
        return;
    }
private:
};
double WidgetPrivate2::last(QObject shortcut)
{
    const char * v12;
    return shortcut.last(QObject::toUTC());
}
struct QTypeInfo : public QObject
{
    Q_GADGET
public:
    enum E { A, B };
    QTypeInfo() {}
    QTypeInfo(const WidgetPrivate2 & shortcut) {}
    virtual ~QTypeInfo() = default;
    static bool toString(WidgetPrivate2 * fieldWidth) {
        auto v13 = QMultiHash{};
        for (int v14 = 0; v14 < (((QObject::toUTC())) % QObject()); ++v14) {
            const char * v15 = false ? static_cast<const char *>((QMultiHash()).first((QObject()).last(QObject{}))) : ("");
            (((QObject::toUTC())) % (QObject::toUTC()).toUTC());
        }
        return (QMultiHash{}).take();
    }
    static bool end(QMultiHash fillChar);
    static int registerHelper(int width, const char * shortcut);
    virtual const char * removeAll() const;
public:
    const QTypeInfo & addActions() {

    }
    int fill() const {
        return (QMultiHash{}).fill(-1);
    }
private:
    int m_timer;
    const char * m_list;
};
const char * QTypeInfo::removeAll() const
{

    WidgetPrivate2::last(QObject((((QObject())) % QObject()), (QMultiHash()).take()));
    auto &&v19 = WidgetPrivate2{};
    return "#ff00ff";
}
inline int max()
{
    for (int v20 = 0; v20 < QTypeInfo::end(QMultiHash()); ++v20)
        (QMultiHash{}).take();
    if (true) {
        switch (QTypeInfo::toString(nullptr)) {
        case 7:
          {
            break;
          }
        default:
            break;
        }
        Conn::connect(SIGNAL(), SIGNAL( f( const int &) ), Qt_UniqueConnection, nullptr);
    }
    return (500 < ((QTypeInfo{}).addActions()).fill());
}
template <typename T, typename U = int> struct QVector : virtual public QObject
{
    Q_OBJECT
    Q_PROPERTY(QString s READ s WRITE setS NOTIFY sChanged)
public:
    struct Data { int a; }; friend struct Data;
    QVector() {}
    explicit QVector(const char * value, const QVector<int, int> & sender) {}
    explicit QVector(double base, int slot) {}
    virtual ~QVector() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    const char * take(int value, bool fillChar);
signals:
    static const char * callStaticObjectMethod(int fillChar);
    const char * toLower(const char * method) const;
    QObject operator<(QMultiHash base64);
public slots:
    const char * indexIn(const char * type, const QVector<int, int> * base, QTypeInfo base64, const char * other = "d", int value = 0) const;
public:
    int m_timer{};
    const char * a;
    int m_a;
};
const char * use0(int base = 0)
{
    ((((QVector<int, int>{})) < QMultiHash())).last(QObject((((QObject{})) % QObject{}), base));
    switch (max()) {
    case 7:
      {
        break;
      }
    default:
        break;
    }
    const char * v26 = (QVector<int, int>{}).toLower("é");
    base = (QTypeInfo()).fill();
    while ((QTypeInfo{}).end(QMultiHash{})) {
        break;
    }
    return "QObject";
}
QTypeInfo use1()
{
    (QMultiHash()).take();
    for (int v30 = 0; v30 < 1 << 4; ++v30) {
        static QMultiHash v31{};
    }
    int v32;
    return QTypeInfo();
}
