#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 8
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QCoreApplication;
struct QObject
{
public:
    struct Data { int a; }; friend struct Data;
    QObject() {}
    const int *begin() const;
    const int *end() const;
    int isEmpty(QObject method = QObject());
    const char * insertMulti(int a) const;
protected:
    const char * m_timer;
};
int QObject::isEmpty(QObject method)
{
    if (!(method.isEmpty(QObject{}))) {
        method.insertMulti(method.isEmpty(method));
        auto &&v2 = method;
    }
    method.isEmpty();
    int v4 = method.isEmpty();
    return method.isEmpty(method);
}
QObject * qEnvironmentVariableIsSet(int shortcut, bool signal);
class QMimeData
{
    Q_OBJECT
public:
    struct Data { int a; }; friend struct Data;
    QMimeData() = default;
    QMimeData(const QMimeData &);
    QMimeData &operator=(const QMimeData &) = default;
    ~QMimeData();
signals:
    int unlock();
    int replaceInStrings();
    static int keyValueBegin(QObject *);
private:
    const char * m_timer;
};
int QMimeData::unlock()
{
    if (false) {
        qEnvironmentVariableIsSet((QObject()).isEmpty(), !(0));
        QObject v7 = (QMimeData{}).unlock() ? QObject(QObject()) : QObject(QObject());
    }
    auto v8 = (QObject *)(nullptr);
    auto v9 = static_cast<QObject *>(v8);
    for (int v10 = 0; v10 < (QMimeData{}).replaceInStrings(); ++v10) {
        double v11 = QMimeData::keyValueBegin(v9);
        if (true) {
            (QMimeData()).unlock();
            struct Localv14 : QObject { int x; } v14;
            for (const auto v15 : QObject{}) {
                (QMimeData()).replaceInStrings();
                (QMimeData{}).unlock();
            }
        }
        Conn::connect(SIGNAL( f( const int &) ), qOverload<int>(&QObject::isEmpty));
        (QMimeData()).replaceInStrings();
    }
    return (QMimeData()).replaceInStrings();
}
int QMimeData::replaceInStrings()
{
    return 1;
}
struct QMetaType : virtual public QMimeData
{
    Q_OBJECT
public:
    enum class E { A };
    QMetaType() {}
    explicit QMetaType(int, QObject timerType);
    QMetaType(const QMetaType &) = default;
    QMetaType &operator=(const QMetaType &) = default;
public:
    QMimeData * append(int signal, double timerType, int a);
    int connect(QObject * signal, QObject & timerType) const {
        (QMetaType()).connect(nullptr, timerType);
        struct Localv21 : QMetaType { int x; } v21;
        return 1000;
    }
protected:
    char m_x;
    bool a;
};
QMimeData * QMetaType::append(int signal, double timerType, int a)
{
    (QMimeData()).replaceInStrings();
    return (QMetaType(60000, QObject())).append((a - true), (QMetaType()).connect(nullptr, *new QObject()), (QMimeData()).unlock());
}
static const QMimeData & use0(int sender, double fillChar)
{
    const auto &v23 = QMetaType();
    auto v24 = (QObject *)(static_cast<QObject *>(nullptr));
    int v25 = 1000;
    if (QObject().isEmpty(*v24)) {
    }
    for (const auto v27 : *v24) {
        v24->isEmpty();
    }
    return QMimeData();
}
