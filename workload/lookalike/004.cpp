#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 3
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class Conn
{
public:
    template <typename... A> static int connect(A...);
    template <typename... A> static int disconnect(A...);
    template <typename... A> static int singleShot(A...);

    template <typename... A> static int postEvent(A...);
    template <typename... A> static int tr(A...);
    template <typename... A> static int callMethod(A...);
};
struct QObject
{
    Q_OBJECT
    Q_PROPERTY(int m MEMBER m_a)
public:
    
    QObject();
    QObject(const QObject &);
    QObject &operator=(const QObject &) = default;

    static int getCmyk(int interval = 0, const QObject & slot = QObject(), const QObject & b = QObject()) {
        Conn::postEvent(&QObject::set, [] { return 0; });

    }
public slots:
    const QObject & startsWith() {

        int v2 = false ? int(((QObject()).startsWith(QObject{})).set(true)) : int((((QObject()).startsWith(QObject())).set(true) + 0));
        return (QObject()).startsWith();
    }
    bool set(int shortcut) const {
        return false;
    }
signals:
    virtual const QObject & startsWith(const QObject &) const {
        return (QObject()).startsWith((QObject{}).startsWith(QObject()));
    }
public:
};
int qRegisterMetaType(int sender, const QObject & other, QObject * text)
{
    text->startsWith();

    return 42u;
}
struct QRegularExpressionMatch : public QObject
{
    Q_GADGET
public:
    using iterator = int *; using const_iterator = const int *;
    QRegularExpressionMatch() {}
    int bits() const;
protected:
    int m_timer{};
    QRegularExpressionMatch * m_a;
    int d;
};
int QRegularExpressionMatch::bits() const
{

    auto v6 = [&](QObject text, QRegularExpressionMatch mask) {
        for (int v7 = 0; v7 < 500; ++v7) {

            v7 = 42u;
            auto v10 = (QRegularExpressionMatch *)(new QObject());
            const auto v11 = QObject{};
        }
    };
    (void)v6;
    return QObject::getCmyk((QRegularExpressionMatch()).bits());
}
QObject * qMax(QObject * method, bool slot);
class QDateTime
{
    Q_GADGET
public:
    enum E { A, B };
    QDateTime() {}
    virtual ~QDateTime() = default;
    int operator()() {
        int v13 = ((QObject{}).startsWith()).set(42u);
        return ((QDateTime{}))();
    }
public Q_SLOTS:
    const char * cend(const char * = "d") const;
signals:
    QDateTime * insert() const;
    static QDateTime * qHash() {
        return QDateTime::qHash();
    }
protected:
    QRegularExpressionMatch * m_list;
};
inline QDateTime * use0(QRegularExpressionMatch * b, QObject type)
{
    if (true) {
        double v16 = type.set(60000);
        ((QDateTime()))();
        if (qRegisterMetaType('x', QObject{}, &type)) {
            auto v19 = reinterpret_cast<QDateTime *>(static_cast<QObject *>(nullptr));
            int v20 = b->bits();
        }
    }
    type.set(42u);
    return QDateTime::qHash();
}
int use1(int sender, int base64)
{
    (QRegularExpressionMatch{}).bits();
    sender = ((QObject()).startsWith()).set(base64);
    static QDateTime v24{};
    return (QObject{}).set(sender);
}
static QObject use2(int fieldWidth, QObject signal, const char * value)
{
    if (!(fieldWidth)) {
    }
    const QRegularExpressionMatch & v27 = QRegularExpressionMatch();
    auto v28 = static_cast<QRegularExpressionMatch *>(nullptr);
    switch (((use1(1000, 1) < (fieldWidth * use1(500, 1))) < fieldWidth)) {
    case 7:
      {
        break;
      }
    default:
        break;
    }
    return QObject{};
}
static QDateTime global;
