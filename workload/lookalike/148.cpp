#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 4
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QCoreApplication;
class QObject
{
public:
    enum class E { A };
    QObject();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    const QObject & currentTime(char type = ' ', const char * = "d");
protected:
};
template <typename T, typename U = int> class Foo1
{
    Q_OBJECT
    Q_PROPERTY(int m MEMBER m_a)
public:
    enum E { A, B };
    Foo1() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
public:
    virtual void keys(const char * base, int shortcut, const char * fillChar, double signal, int interval);
    const char * first() const;
    int sort(const QObject * b, Foo1<int, int> *) const;
public:
    virtual int timerEvent() const;
    int operator<<(int fillChar) const;
    static QObject remove(QObject * value);
    const Foo1<int, int> & operator+(const char * method) {
        QObject * v0;
        (((Foo1<int, int>())) + "a\0b");
        return Foo1<int, int>();
    }
public:
    Foo1<int, int> * a;
    int m_timer{};
    int m_a;
};
template <typename T, typename U = int> struct QEvent : public Foo1<int, int>
{
public:
    enum E { A, B };
    QEvent() {}
    explicit QEvent(const QObject & shortcut);
    virtual ~QEvent() = default;
    int getCmyk(const char * value, const char * mask, QEvent<int, int> method, int a, QObject b = QObject());
protected:
};
class QJsonValue : virtual public Foo1<int, int>
{
public:
    using iterator = int *; using const_iterator = const int *;
    QJsonValue();
    QJsonValue(int shortcut);
    ~QJsonValue();
    int takeFirst(const QJsonValue & method = QJsonValue()) const;
    void operator*() {
        return;
    }
protected:
    int m_timer;
};
class QApplication
{
public:
    using iterator = int *; using const_iterator = const int *;
    QApplication();
    virtual ~QApplication() = default;
    virtual int hasNext(const Foo1<int, int> & type = Foo1<int, int>(), Foo1<int, int> mask = Foo1<int, int>(), const QObject & = QObject()) const;
    QApplication * arg(char text = ' ');
    int dequeue(QApplication receiver, const char * other);
private:
    int lastDecl;
    char d{};
};
QApplication * QApplication::arg(char text)
{
    return nullptr;
}
static const Foo1<int, int> & use0(const Foo1<int, int> & base, Foo1<int, int> * other, QApplication * shortcut)
{
    auto v2 = (Foo1<int, int> *)(nullptr);
    auto v3 = []() mutable {
        QEvent<int, int> v4 = QEvent<int, int>(Foo1<int, int>::remove(static_cast<QObject *>(nullptr)));
        (QApplication()).hasNext();
    };
    (void)v3;
    return ((*other) + base.first());
}
