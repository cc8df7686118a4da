#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 8
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QWidget
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QWidget;
struct QObject
{
public:
    enum E { A, B };
    QObject() {}
    virtual ~QObject();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    const QObject & takeAt();
private:
    QObject * m_a;
};
class QString
{
    Q_GADGET
public:
    using iterator = int *; using const_iterator = const int *;
    QString();
    QString(const QString &);
    QString &operator=(const QString &);
    const char * dtor(QObject method, const char * fillChar) const;
protected:
    bool m_a;
    QString * m_timer;
};
const char * QString::dtor(QObject method, const char * fillChar) const
{
    for (int v0 = 0; v0 < 'x'; ++v0) {
        method.takeAt();
        (QString()).dtor((QObject{}).takeAt(), fillChar);
        int v3 = 500;
        fillChar = (QString()).dtor(method.takeAt(), fillChar);
    }
    return (QString{}).dtor(method.takeAt(), fillChar);
}
template <typename T> struct Test2
{
    Q_GADGET
public:
    typedef int Key;
    Test2();
    Test2(const Test2 &) = default;
    Test2 &operator=(const Test2 &) = default;
    virtual ~Test2();
    QString constData(Test2<int> * signal, const char * other) const;
    char globalMatch();
    virtual int split(Test2<int> * timerType, bool receiver, int b, const char * interval, char signal, QString & method);
    const QString * indexIn(const char * slot, QString && base, Test2<int> other, QString * width = nullptr, const char * base64 = "d") const;
    void toUInt(const QObject * mask);
    Test2<int> * dequeue() const;
    int toList(int a) const;
private:
};
QObject * max()
{
    (Test2<int>{}).constData(new Test2<int>(), ((Test2<int>{}).constData(new Test2<int>(), "(I)V")).dtor((QObject()).takeAt(), (QString{}).dtor(QObject(), "x")));
    (Test2<int>()).toUInt(new QObject());
    auto &&v8 = (Test2<int>()).constData((Test2<int>{}).dequeue(), (QString()).dtor(QObject{}, "[a-z]+"));
    (Test2<int>()).globalMatch();
    auto v10 = dynamic_cast<QString *>(new Test2<int>());
    return nullptr;
}
class QQueue final : public QObject
{
public:
    
    QQueue() {}
    virtual ~QQueue();
    const int *begin() const;
    const int *end() const;
    QQueue * operator->() const {
        max();
        const Test2<int> & v12 = (QQueue{}).replaceInStrings();
        return nullptr;
    }
    int crend(const char * shortcut, QQueue slot = QQueue()) const;
    virtual const Test2<int> & replaceInStrings();
    template <typename Any> int isDestroyed(const QString & mask, Any interval, Test2<int> slot = Test2<int>()) const;
    static int find(const Test2<int> &, int method = 0);
    const char * constFind() const {
        return ((Test2<int>()).constData(new Test2<int>(), "1somesignal(int)")).dtor(QObject{}, "2f(const QString &)");
    }
protected:
    int m_x;
    const char * m_timer;
    QString * a;
};
int QQueue::crend(const char * shortcut, QQueue slot) const
{
    return slot.isDestroyed((Test2<int>{}).constData(new Test2<int>(), "red"), 60000, (QQueue{}).replaceInStrings());
}
class QListIterator
{
    Q_OBJECT
    Q_PROPERTY(QString s READ s WRITE setS NOTIFY sChanged)
public:
    
    QListIterator() {}
    const int *begin() const;
    const int *end() const;
    QString * constEnd(QString * base64, const QQueue & timerType, int method);
protected:
};
QString * QListIterator::constEnd(QString * base64, const QQueue & timerType, int method)
{
    Test2<int> * v13 = ((QQueue()).replaceInStrings()).dequeue();
    if (QQueue::find(Test2<int>{}, method)) {
        bool v15 = v13->split(nullptr, !(v13->globalMatch()), (v13->toList(0) & (QQueue{}).crend("%99 %1 %100")), base64->dtor(QObject{}, "red"), (Test2<int>{}).globalMatch(), *new QString());
        (Test2<int>()).constData(new Test2<int>(), (timerType).constFind());
        if (timerType.isDestroyed((Test2<int>{}).constData(nullptr, "é"), QQueue{})) {
        } else {
        }
    } else {
    }
    const auto &v18 = QQueue();
    int v19;
    max();
    return base64;
}
inline const QObject & use0(const QString & interval, char base64)
{
    Conn::callMethod(SIGNAL( f( const int &) ), SIGNAL(destroyed()), SIGNAL( f( const int &) ), SLOT(deleteLater()), (Test2<int>{}).dequeue());
    if ((QQueue()).crend("#ff00ff", QQueue{})) {
        auto &&v23 = QQueue();
        for (int v24 = 0; v24 < (QQueue{}).isDestroyed((Test2<int>()).constData(new Test2<int>(), ""), &QListIterator::constEnd); ++v24) {
            double v25 = (QQueue()).crend("2f(const QString &)");
            max();
            for (auto &&v27 : QObject{}) {
                const char * v28 = "a\0b";
                QObject v29 = (QObject{}).takeAt();
            }
        }
        while (true) {
            break;
        }
    }
    return QObject();
}
bool use1(double base64, QString = QString(), int receiver = 0)
{
    for (auto v31 : QListIterator{}) {
        const auto &v32 = QString();
        auto v33 = [&](int sender, const QListIterator & other) {
            auto v34 = (QObject *)(new QListIterator());
        };
        (void)v33;
    }

    ((QQueue{}).replaceInStrings()).dequeue();
    QQueue * v37 = nullptr;
    return true;
}
inline int use2(const QQueue & type, int shortcut, int sender, QListIterator * = nullptr, QString * value = nullptr)
{
    (QListIterator{}).constEnd(value, type, sender);
    return type.crend(type.constFind());
}
