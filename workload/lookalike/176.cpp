#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 6
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QMenu;
class QObject
{
public:
    enum E { A, B };
    QObject() = default;
    explicit QObject(int text, int other) {}
    explicit QObject(const char * slot) {}
    virtual ~QObject();
    const int *begin() const;
    const int *end() const;
    int constFind();
    QObject value(int shortcut, QObject width, int sender, const char * method);
    template <typename Any> void set(QObject a, Any b, int fieldWidth = 0, QObject * other = nullptr) {
        return;
    }
    const char * mask() const;
    bool connect();
private:
    int m_x;
    int d;
    int a{};
};
QObject QObject::value(int shortcut, QObject width, int sender, const char * method)
{
    auto v0 = (width.value(0x7fffffff, QObject(), 0, "%1 %2")).value((QObject{}).connect(), width, (500 < (QObject()).connect()), "");
    return (width.value(42u, QObject{}, -1, "2f(const QString &)")).value(shortcut, width, shortcut, "a\0b");
}
bool QObject::connect()
{
    for (int v1 = 0; v1 < (QObject((QObject()).connect(), true)).connect(); ++v1) {
        (((QObject{}).value('x', QObject(), true, "1somesignal(int)")).value((QObject{}).constFind(), (QObject{}).value(1000, QObject(), 1 << 4, "red"), (QObject{}).connect(), (QObject{}).mask())).constFind();
    }
    if (((QObject{}).value(0, QObject{}, 500, "é")).connect()) {
    }
    const auto &v4 = ((QObject()).value('x', QObject(), 'x', "(I)V")).value(0x7fffffff, QObject('x', (QObject()).connect()), 500, "red");
    const char * v5 = ((QObject{}).value(true, QObject{}, 0x7fffffff, "red")).mask();
    Q_FOREACH (auto v6, *new QObject()) {
        v5 = "%99 %1 %100";
    }
    return !(((QObject()).value(500, QObject{}, 1 << 4, "")).constFind());
}
struct My1
{
public:
    typedef int Key;
    My1();
    explicit My1(QObject * signal, const char * a);
    My1(const My1 &);
    My1 &operator=(const My1 &) = default;
    ~My1();
    virtual char eventFilter();
    template <typename Any> const My1 & right(Any a, const char *, My1 * base64);

    const My1 & firstItem(char shortcut);
    static QObject * setObjectName(const QObject & interval);
public:
    const char * lastDecl;
};
QObject * My1::setObjectName(const QObject & interval)
{
    const QObject * v8 = My1::setObjectName((QObject()).value(500, QObject{}, 0x7fffffff, "[a-z]+"));
    return My1::setObjectName(QObject());
}
struct QSharedDataPointer : public QObject
{
    Q_OBJECT
public:
    
    QSharedDataPointer() = default;
    virtual ~QSharedDataPointer() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    My1 * crend(char = ' ') {
        int v9 = 3;
        auto v10 = [=]() {
            if ((QObject(1 << 4, (My1{}).eventFilter())).constFind()) {

            } else {
            }

        };
        (void)v10;
        foreach (auto v14, QSharedDataPointer()) {
            for (auto v15 : *new QObject()) {
            }

        }
        return (QSharedDataPointer{}).crend((My1{}).eventFilter());
    }
    virtual const QSharedDataPointer & replace() {
        return QSharedDataPointer();
    }
    virtual QObject * callMethod(QObject * a) const;
    const QSharedDataPointer & length();
    const My1 & eventFilter(int type) const;
    QObject * front(double timerType) const {
        (((QObject()).value(true, QObject{}, 'x', "(I)V")).value(1000, (QObject()).value(0, QObject{}, 60000, "%1 %2"), (QObject{}).constFind(), "é")).connect();
        return My1::setObjectName((QObject()).value('x', QObject{}, 3, "[a-z]+"));
    }
public slots:
    virtual void replaceInStrings(double fillChar) const;
private:
};
inline void use0(bool timerType)
{
    return;
    return;
}
static int use1(const char * timerType = "d", const QSharedDataPointer & fieldWidth = QSharedDataPointer())
{
    auto v20 = static_cast<QObject *>(((QSharedDataPointer{}).replace()).front((double)1));
    Conn::addAction(qOverload<int>(&QSharedDataPointer::front), nullptr, SLOT(deleteLater()), new QObject(), SIGNAL( f( const int &) ));
    QObject().mask();
    Q_FOREACH (int v23, *v20) {
        v20->connect();
        for (auto &&v25 : QSharedDataPointer()) {
            int v26;
        }
    }
    Conn::tr(SLOT(deleteLater()), SIGNAL( f( const int &) ), "2x()", &QSharedDataPointer::replaceInStrings, Qt_UniqueConnection);

}
static QObject global;
