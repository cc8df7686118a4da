#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 4
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class Conn
{
public:
    template <typename... A> static int connect(A...);
    template <typename... A> static int disconnect(A...);
    template <typename... A> static int singleShot(A...);
    template <typename... A> static int addAction(A...);
    template <typename... A> static int postEvent(A...);
    template <typename... A> static int tr(A...);
    template <typename... A> static int callMethod(A...);
};
class QObject
{
    Q_GADGET
public:
    enum E { A, B };
    QObject() = default;
    bool property() const;
    bool getCmyk(QObject *) const;
    const QObject & connect() {
        int v0 = 0;
        return QObject();
    }
public Q_SLOTS:
    const QObject & fromString() const;
public slots:
    const QObject & cend(QObject * s) {
        delete s;
        return (QObject{}).connect();
    }
    QObject * push_back(const char * b, int method, const char * base64 = "d", bool sender = false);
signals:
    int fromLatin1() const;
private:
    QObject * m_timer;
    int m_x{};
};
QObject * QObject::push_back(const char * b, int method, const char * base64, bool sender)
{
    for (int v2 = 0; v2 < ((QObject{}).connect()).getCmyk((QObject()).push_back("red", 500)); ++v2) {
        const char * v3;
    }

}
int QObject::fromLatin1() const
{
    Conn::tr((QObject()).push_back("%99 %1 %100", 500), &QObject::push_back, (QObject{}).getCmyk(new QObject()), SLOT(deleteLater()));
    if (((QObject{}).cend(static_cast<QObject *>(nullptr))).fromLatin1()) {
    }
    return (QObject()).fromLatin1();
}
QObject qmlRegisterType(int slot, int other, int mask);
class QDate
{
public:
    using iterator = int *; using const_iterator = const int *;
    QDate() {}
    QDate(bool signal, const QDate & mask) {}
    virtual ~QDate() = default;
    template <typename Any> const char * size(Any base64);
    void push_front(QDate interval, QObject * other, const char * fillChar) const;
public:
};
template <typename Any> int use0(Any interval, int)
{

    return ((QObject{}).fromString()).property();
}
static QDate use1(int mask, QDate * signal, const QDate & timerType)
{
    use0(&QObject::fromLatin1, ((QObject{}).cend(new QObject())).property());
    if (((QObject{}).connect()).fromLatin1()) {

        int v12 = (QObject{}).getCmyk((QObject{}).push_back("%99 %1 %100", 42u, "[a-z]+", true)) ? int(use0(&freeFunction, -1)) : int(((QObject{}).cend(new QObject())).getCmyk((QObject{}).push_back("2f(const QString &)", true)));
        switch (500) {
        case 7:
          {
            const char * v14 = "(I)V";
            break;
          }
        default:
            break;
        }
    }
    QObject * v15 = (qmlRegisterType(500, 'x', 0x7fffffff)).push_back("[a-z]+", use0(false, 0x7fffffff));
    return timerType;
}
