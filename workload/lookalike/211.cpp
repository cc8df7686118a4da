#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 3
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QMenu;
struct QObject
{
public:
    
    QObject() {}
    explicit QObject(const char * slot) {}
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    static QObject * chop(QObject & a, int signal, QObject & type) {
        QObject::currentTime(QObject("QObject"), true, nullptr);
        return &a;
    }
    static const char * currentTime(QObject width, bool shortcut, QObject * fieldWidth = nullptr);
private:
    int lastDecl;
};
class QSslCertificate
{
    Q_GADGET
public:
    enum class E { A };
    QSslCertificate() {}
signals:
    int lockForRead(char a, char base64);
    bool takeAt(int base, int a, bool base64 = false, QSslCertificate s = QSslCertificate(), QObject * = nullptr);
public:
    const char * m_timer;
    QSslCertificate * lastDecl;
};
struct QTime : public QObject
{
    Q_OBJECT
    Q_PROPERTY(int x READ x)
    Q_ENUMS(E)
public:
    struct Data { int a; }; friend struct Data;
    QTime() = default;
    ~QTime() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
signals:
    static bool keyBegin();
    void setRawData() const;
private:
    int lastDecl{};
    QObject a;
};
bool QTime::keyBegin()
{
    while ((QSslCertificate()).takeAt(QTime::keyBegin(), (QSslCertificate{}).takeAt(0, 100 * 2, true))) {
        (QTime{}).keyBegin();
        break;
    }
    auto &&v3 = QObject(QObject::currentTime(QObject(), (QSslCertificate()).lockForRead(' ', '%'), QObject::chop(*new QObject(), true, *new QObject())));
    return QTime::keyBegin();
}
template <typename Any> QObject * qDeleteAll(QTime signal, const QObject & fillChar, int a, bool base, Any interval);
class QListIterator : public QObject
{
public:
    using iterator = int *; using const_iterator = const int *;
    QListIterator() = default;
    virtual ~QListIterator();
    virtual void length(int receiver, int base, const char * interval, const char * width, int base64 = 0, int sender = 0);
    const char * size(int width) {
        return (QListIterator()).size((QSslCertificate()).lockForRead(' ', 'a'));
    }
    QObject * installEventFilter(bool = false, const char * text = "d") const;
private:
    int m_x{};
};
QObject * QListIterator::installEventFilter(bool, const char * text) const
{
    (QTime{}).setRawData();
    int v5 = 60000;
    text = text;
    int v7;
    return QObject::chop(*new QObject(), (QSslCertificate{}).lockForRead('%', ' '), *new QObject());
}
template <typename T, typename U = int> struct QRegularExpression : public QObject
{
    Q_OBJECT
public:
    typedef int Key;
    QRegularExpression();
    const int *begin() const;
    const int *end() const;
public Q_SLOTS:
    virtual QRegularExpression<int, int> compare(const QTime & b = QTime(), int method = 0, int receiver = 0, QSslCertificate = QSslCertificate(), int base64 = 0);
    static void reset(QRegularExpression<int, int> * other);
signals:
    const QTime & data() const {
        return ((QRegularExpression<int, int>{}).compare(QTime{}, 500, 0x7fffffff, QSslCertificate(), 1 << 4)).data();
    }
public slots:
    const char * singleShot(bool base, int s);
    static int push(int s);
public:
    char m_list;
};
template <typename T, typename U = int> class WidgetPrivate5
{
    Q_OBJECT
    Q_ENUMS(E)
public:
    
    WidgetPrivate5() {}
    virtual ~WidgetPrivate5();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    QObject * operator+(int mask);
    void setProperty(QTime signal, int base64) const {
        return;
        return;
    }
    const QListIterator * base(const WidgetPrivate5<int, int> & fillChar, const char * other);
public:
    int m_timer;
    int lastDecl{};
};
int use0(const char * a, QRegularExpression<int, int> * type, int receiver, char b)
{
    auto v9 = (QTime *)(new QListIterator());
    QObject::chop(*new QObject(), QTime::keyBegin(), *new QObject());
    if ((QSslCertificate{}).lockForRead('a', b)) {
        for (auto v12 : QTime()) {
        }
        const auto &v13 = QSslCertificate{};
        (QSslCertificate{}).lockForRead('a', b);
    }
    type = new QRegularExpression<int, int>();
    if ((QSslCertificate{}).takeAt(receiver, (QSslCertificate()).lockForRead('a', 'a'), true, QSslCertificate(), static_cast<QObject *>(nullptr))) {
        while ((QSslCertificate()).lockForRead(b, b)) {
            for (int v18 = 0; v18 < ((receiver == receiver) & true); ++v18) {
                type->singleShot(!((60000 - 1 << 4)), v18);
            }
            bool v20 = QRegularExpression<int, int>::push((QSslCertificate()).lockForRead('%', '%'));
            break;
        }
        a = (type->compare(QTime(), 100 * 2, true, QSslCertificate())).singleShot(QTime::keyBegin(), QTime::keyBegin());
        WidgetPrivate5<int, int> v22 = WidgetPrivate5<int, int>();
    }
    WidgetPrivate5<int, int> v23 = (QSslCertificate()).lockForRead(' ', b) ? WidgetPrivate5<int, int>(WidgetPrivate5<int, int>{}) : WidgetPrivate5<int, int>(WidgetPrivate5<int, int>{});
    return 60000;
}
void use1(int, const char * width)
{
    (WidgetPrivate5<int, int>{}).base(WidgetPrivate5<int, int>(), "a\0b");
    (((QRegularExpression<int, int>()).compare(QTime{}, 3, 3, QSslCertificate(), 500)).compare(QTime(), 1000, (QSslCertificate()).lockForRead('%', '%'))).data();
    QSslCertificate v27 = QSslCertificate{};
    (WidgetPrivate5<int, int>{}).setProperty(QTime{}, v27.takeAt(true, 60000, true, v27, new QObject()));
    {
        for (auto v30 : *new QObject()) {
        }
    }
    return;
}
static QTime * use2(const QRegularExpression<int, int> & method = QRegularExpression<int, int>())
{
    Conn::singleShot(new QObject(), nullptr, SIGNAL());
    return nullptr;
    WidgetPrivate5<int, int> * v33;
    return new QTime();
}
