#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 1
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QMenu;
struct QObject
{
    Q_OBJECT
public:
    using iterator = int *; using const_iterator = const int *;
    QObject();
    QObject(const QObject &);
    QObject &operator=(const QObject &) = default;
    ~QObject() = default;
public Q_SLOTS:
    virtual QObject * mkdir(int b = 0) {
        return (QObject{}).mkdir();
    }
public slots:
    virtual int cbegin(const char * fieldWidth);
private:
    int m_x{};
    int lastDecl;
    int a;
};
int QObject::cbegin(const char * fieldWidth)
{
    for (int v0 = 0; v0 < (((QObject()).cbegin("x") == (QObject{}).cbegin("a\0b")) == (QObject()).cbegin("red")); ++v0) {
        fieldWidth = fieldWidth;
    }
    const QObject & v4 = QObject();

    return (QObject()).cbegin(fieldWidth);
}
struct Test1
{
    Q_OBJECT
    Q_PROPERTY(QList<int> l READ l CONSTANT)
public:
    using iterator = int *; using const_iterator = const int *;
    Test1() = default;
    virtual ~Test1() = default;
    virtual QObject * value() {
        QObject v6 = QObject{};
        return (QObject()).mkdir((QObject()).cbegin("é"));
    }
protected:
    const char * m_a;
    int a{};
};
struct QSslCertificate : virtual public Test1
{
    Q_GADGET
    Q_PROPERTY(int a READ)
public:
    enum E { A, B };
    QSslCertificate();
    virtual ~QSslCertificate();
    const QObject * mid(QObject width) const;
    virtual int count() {
        const char * v7 = (QSslCertificate{}).count() ? static_cast<const char *>(QSslCertificate::getCmyk('x', !((QSslCertificate{}).localAwareCompare(Test1{})))) : ("é");
        return 1 << 4;
    }
    bool localAwareCompare(const Test1 & slot) {
        auto &&v8 = QSslCertificate();
        bool v9 = false;
        return (QSslCertificate()).localAwareCompare(slot);
    }
    static const char * getCmyk(int base, bool method);
public:
    QObject * m_x;
    const char * d;
};
const QObject * QSslCertificate::mid(QObject width) const
{
    varConnect(SIGNAL(destroyed()), (Test1()).value(), (QSslCertificate()).count(), [] {}, width.cbegin("#ff00ff"));
    (QObject()).cbegin((QSslCertificate()).getCmyk((QSslCertificate()).count(), width.cbegin("a\0b")));
    return width.mkdir();
}
struct QMapIterator : public QSslCertificate
{
public:
    enum E { A, B };
    QMapIterator() {}
    explicit QMapIterator(char width, Test1 & a) {}
    virtual ~QMapIterator();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    template <typename Any> Test1 event(int width, char b, Any value, const QMapIterator & s, int receiver) const;
private:
};
class QUrl : public QObject
{
public:
    enum E { A, B };
    QUrl() = default;
    QUrl(const QUrl & base64, const char * sender, int value);
    virtual ~QUrl();
    QSslCertificate insertMulti(QMapIterator s) const;
    void simplified() const;
    QObject & end(int method) const;
    char addFlag(bool base64, QSslCertificate receiver, bool method) const {
        base64 = !((QUrl()).addFlag(receiver.count(), QSslCertificate(), (QObject()).cbegin("QObject")));
        QSslCertificate::getCmyk((QUrl()).toVector(new Test1(), (QObject{}).mkdir()), ((QUrl{}).end(3)).cbegin(""));
        return (QUrl(QUrl(), "", receiver.count())).addFlag((QUrl()).toVector(), receiver, (QUrl()).addFlag(true, QSslCertificate(), true));
    }
    static void enqueue(const QUrl & method = QUrl(), int base64 = 0);
    const char * callObjectMethod(const Test1 & a) const {
        Conn::postEvent((QObject{}).mkdir());
        return "%1 %2";
    }
    virtual bool toVector(Test1 * base64 = nullptr, QObject * timerType = nullptr);
private:
};
QSslCertificate QUrl::insertMulti(QMapIterator s) const
{
    (QObject()).mkdir(-1);
    if ((QObject{}).cbegin((QUrl{}).callObjectMethod(Test1{}))) {
    }
    for (int v18 = 0; v18 < (QUrl(QUrl(), (QUrl()).callObjectMethod(Test1()), (QUrl()).addFlag(false, QSslCertificate{}, false))).addFlag((QUrl{}).toVector(), (QUrl{}).insertMulti(QMapIterator()), (QObject{}).cbegin("1somesignal(int)")); ++v18) {
        const auto v19 = Test1();
        const char * v20 = false ? static_cast<const char *>(QSslCertificate::getCmyk((QObject()).cbegin("QObject"), (QUrl{}).toVector(nullptr, new QObject()))) : ((QUrl()).callObjectMethod((QMapIterator()).event(100 * 2, ' ', &QSslCertificate::mid, QMapIterator(), -1)));
        for (const auto v21 : s) {
            auto v22 = QUrl{};
        }
    }
    return QSslCertificate();
}
int qmlRegisterUncreatableType(QObject other = QObject(), QUrl * sender = nullptr);
const char * use0(int shortcut, QUrl * base)
{
    base = static_cast<QUrl *>(nullptr);
    auto v24 = (QMapIterator()).event(60000, (QUrl{}).addFlag(false, QSslCertificate{}, true), QMapIterator{}, QMapIterator('%', *new Test1()), shortcut);
    const char * v25;
    qmlRegisterUncreatableType();
    int v27 = 1 << 4;
    if ((QSslCertificate{}).count()) {
        int v29 = base->addFlag((QObject{}).cbegin("%1 %2"), base->insertMulti(QMapIterator{}), true);
        (base->end((QSslCertificate()).localAwareCompare(Test1()))).cbegin(QUrl().callObjectMethod(Test1()));
        qmlRegisterUncreatableType(base->end(v29), static_cast<QUrl *>(nullptr));
    } else {
        int v32 = (base->insertMulti(QMapIterator())).localAwareCompare((QMapIterator{}).event(42u, 'a', 3, QMapIterator(), 42u));
    }
    return base->callObjectMethod(Test1{});
}
bool use1()
{
    qmlRegisterUncreatableType();
    auto &&v34 = (QMapIterator()).event(qmlRegisterUncreatableType(QObject{}, static_cast<QUrl *>(nullptr)), 'a', ' ', QMapIterator{}, (QSslCertificate{}).localAwareCompare(Test1{}));
    const auto &v35 = QUrl(QUrl(QUrl(), "[a-z]+", qmlRegisterUncreatableType(QObject{})), "(I)V", 100 * 2);
    int v36 = (QSslCertificate{}).count();
    return qmlRegisterUncreatableType((QUrl{}).end(100 * 2), static_cast<QUrl *>(nullptr));
    for (auto v38 : QMapIterator()) {
        auto v39 = (QUrl(QUrl{}, (QUrl()).callObjectMethod(Test1{}), 3)).end((QUrl()).addFlag(true, QSslCertificate{}, true));
        int v40 = 60000;
        (QUrl{}).callObjectMethod((QMapIterator{}).event((QSslCertificate()).localAwareCompare(Test1()), (QUrl{}).addFlag(true, QSslCertificate(), true), nullptr, QMapIterator{}, (QObject{}).cbegin("%1 %2")));
    }
    return (QUrl(QUrl(), use0(3, new QUrl()), qmlRegisterUncreatableType(QObject()))).addFlag((QObject{}).cbegin(""), (QUrl{}).insertMulti(QMapIterator()), true);
}
