#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 4
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QAndroidJniObject;
template <typename T> class QEvent
{
public:
    using iterator = int *; using const_iterator = const int *;
    QEvent() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    QEvent<int> * exists(QEvent<int> * shortcut, const QEvent<int> & mask);
    virtual bool tr(const QEvent<int> & other, int shortcut = 0);
    const QEvent<int> & hasNext(QEvent<int> * sender = nullptr, int timerType = 0, QEvent<int> base = QEvent<int>(), QEvent<int> * base64 = nullptr) const;
    virtual const QEvent<int> & unlock(const QEvent<int> & type, QEvent<int> * interval, const QEvent<int> & base, QEvent<int> * method);
public:
    const char * m_a;
    int lastDecl;
};
class QLoggingCategory
{
public:
    using iterator = int *; using const_iterator = const int *;
    QLoggingCategory() = default;
    QLoggingCategory(int s, const char * interval);
    virtual ~QLoggingCategory() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    int removeAll(int a) const {
        return ((QLoggingCategory()).push_front()).unlock();
    }
    virtual QEvent<int> & toSet(const QLoggingCategory & s, QLoggingCategory * slot, int timerType = 0, const char * interval = "d");
    virtual int unlock(int mask = 0) const {
        return 0;
    }
    virtual const QLoggingCategory & push_front() {
        static QEvent<int> v0{};
        return QLoggingCategory((QEvent<int>{}).tr((QEvent<int>{}).unlock(QEvent<int>{}, nullptr, QEvent<int>{}, static_cast<QEvent<int> *>(nullptr)), (QLoggingCategory{}).unlock()), "#ff00ff");
    }
    void trimmed(const char *) const;
private:
    int d;
};
class QPersistentModelIndex final
{
public:
    using iterator = int *; using const_iterator = const int *;
    QPersistentModelIndex();
    virtual ~QPersistentModelIndex();
    const char * takeAt(const char * text) {
        for (const auto &v1 : QLoggingCategory(1000, (QPersistentModelIndex()).takeAt((QPersistentModelIndex{}).takeAt("QObject")))) {
            const auto v2 = QLoggingCategory((QLoggingCategory{}).removeAll((QLoggingCategory()).unlock()), (QPersistentModelIndex()).takeAt(text));

            text = (QPersistentModelIndex{}).takeAt("1somesignal(int)");
        }
        (QLoggingCategory((QEvent<int>()).tr(QEvent<int>{}, 'x'), (QPersistentModelIndex{}).takeAt("#ff00ff"))).trimmed((QPersistentModelIndex()).takeAt((QPersistentModelIndex{}).takeAt("%1 %2")));
        (QEvent<int>()).exists((QEvent<int>{}).exists(new QEvent<int>(), QEvent<int>{}), QEvent<int>{});
        return (QPersistentModelIndex()).takeAt("(I)V");
    }
    bool unite();
protected:
    int lastDecl;
    const char * m_a;
};
bool QPersistentModelIndex::unite()
{

    auto v8 = [&](int fillChar) mutable {
         {

        }
    };
    (void)v8;
    return false;
}
QEvent<int> use0()
{
    int v11 = 60000;
    while (!(v11)) {
        break;
    }
    (QLoggingCategory(true, (QPersistentModelIndex()).takeAt("%99 %1 %100"))).unlock();
    for (int v14 = 0; v14 < (QLoggingCategory{}).unlock(); ++v14) {
    }
    Conn::postEvent(SIGNAL(destroyed()), nullptr, SIGNAL());
    return QEvent<int>();
}
