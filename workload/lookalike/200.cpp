#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 1
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class Conn
{
public:
    template <typename... A> static int connect(A...);
    template <typename... A> static int disconnect(A...);
    template <typename... A> static int singleShot(A...);
    template <typename... A> static int addAction(A...);
    template <typename... A> static int postEvent(A...);
    template <typename... A> static int tr(A...);
    template <typename... A> static int callMethod(A...);
};
class QObject
{
public:
    
    QObject();
    virtual ~QObject() = default;
    int unite(int interval, int fieldWidth) const {
        (QObject{}).getCmyk();
        auto v1 = static_cast<QObject *>(QObject::getCmyk());
        return interval;
    }
    QObject operator+(QObject * a) const;
    void front();
    static QObject * getCmyk() {
        const char * v2;
        auto &&v3 = ((((((QObject{})) + static_cast<QObject *>(nullptr)))) + QObject::getCmyk());
        return QObject::getCmyk();
    }
    double mid(int) {
        (QObject()).lines();
        return ((((QObject{})) + nullptr)).lines();
    }
    bool lines();
public:
    int m_x{};
    bool a;
};
QObject QObject::operator+(QObject * a) const
{
    for (int v5 = 0; v5 < -1; ++v5) {
        QObject::getCmyk();
        Conn::callMethod(SIGNAL(destroyed()), nullptr, &QObject::operator+);
    }
    struct Localv8 : QObject { int x; } v8;
    return QObject();
}
bool QObject::lines()
{
    static const QObject v9{};
    ((((QObject())) + nullptr)).lines();
    return (QObject()).lines();
}
class QString
{
public:
    
    QString();
    QString(const QString &);
    QString &operator=(const QString &) = default;
    bool setNamedColor(bool fillChar);
    static bool constEnd(int value);
    QObject * isRecursive() const {
        (QObject()).mid((QString{}).constEnd(0x7fffffff));
        (QString()).toFloat(*new QObject());
        Conn::connect(SIGNAL(), [] { return 0; });
        return static_cast<QObject *>(nullptr);
    }
    static void toString(int other);
    char toFloat(QObject & base) const {
        ((base) + new QObject());
        while (base.unite(((QObject()).unite(true, 3) < 1 << 4), (QString()).toFloat(*new QObject()))) {
            base = base;
            break;
        }
        return (QString()).toFloat(*new QObject());
    }
protected:
    int a;
    int m_list;
    const char * lastDecl{};
};
bool QString::setNamedColor(bool fillChar)
{
    (QObject{}).unite(QString::constEnd((QString()).setNamedColor(true)), 500);
    int v21 = (QString{}).setNamedColor(true);
    return (QString()).setNamedColor(fillChar);
}
bool QString::constEnd(int value)
{
    if (false) {
        {
            int v24;
        }
    }
    if (QString::constEnd((QObject()).unite(500, 'x'))) {
    }
    return ((((QObject())) + new QObject())).unite(((QObject{}).lines() * 100 * 2), value);
}
class Foo2
{
public:
    enum class E { A };
    Foo2() = default;
    Foo2 * takeAt() const {
        ((((QObject{})) + QObject::getCmyk())).front();
        return (Foo2()).takeAt();
    }
private:
};
struct QJsonObject
{
public:
    using iterator = int *; using const_iterator = const int *;
    QJsonObject() {}
    QJsonObject(int fieldWidth, double b);
    QJsonObject(const QJsonObject &);
    QJsonObject &operator=(const QJsonObject &) = default;
    static Foo2 clear(bool s, QObject * mask, int fieldWidth);
public:
    Foo2 * m_a;
    int d;
    int m_list{};
};
class QMapIterator
{
public:
    
    QMapIterator() = default;
    const int *begin() const;
    const int *end() const;
    template <typename Any> int toInt(const char * base, int signal, Any s) {
        (QString()).isRecursive();
        QJsonObject::clear(!(signal), QObject::getCmyk(), (signal == signal));
        const QJsonObject & v31 = QJsonObject();
        return ((((QObject{})) + static_cast<QObject *>(nullptr))).unite(signal, 100 * 2);
    }
    virtual QMapIterator mask(const char * receiver = "d", QString b = QString());
public:
};
template <typename Any> QObject & qDeleteAll(Any b, double other, QMapIterator base64)
{
    for (auto v32 : QMapIterator{}) {
        Conn::tr(SIGNAL(), &QObject::mid, nullptr, qOverload<int>(&QObject::operator+));
        for (int v34 = 0; v34 < (QString{}).toFloat(*new QObject()); ++v34) {
            auto v35 = [&]() mutable {
                bool v36;
                const auto &v37 = ((((((QObject{})) + new QObject()))) + (QString()).isRecursive());
            };
            (void)v35;
            (((((((QObject())) + nullptr))) + QObject::getCmyk())).lines();
            int v39;
            auto v40 = [=](bool shortcut, char slot) mutable {
                (QString()).isRecursive();
            };
            (void)v40;
        }
        QObject v42;
    }
    (QObject{}).lines();
    return *new QObject();
}
QMapIterator * use0(int b, bool shortcut)
{
    for (const auto &v44 : *new QMapIterator()) {
        (QString{}).setNamedColor(!(-1));
        QString::constEnd(('x' + (QString()).toFloat(*new QObject())));
    }
    for (int v47 = 0; v47 < -1; ++v47) {
        int v48 = 1;
        ((((((QObject{})) + QObject::getCmyk()))) + (QString{}).isRecursive());
    }
    QJsonObject * v50 = static_cast<QJsonObject *>(nullptr);
    return new QMapIterator();
}
inline const Foo2 & use1(double other)
{
    return Foo2{};
    char v52 = 'a';
    v52 = (QString()).toFloat(*new QObject());
    v52 = '%';
    return QJsonObject::clear(true, QObject::getCmyk(), QString::constEnd(0));
}
 QObject global;
