#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 6
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QTimer;
struct QObject
{
    Q_GADGET
    Q_PROPERTY(QMap<QString, int> m READ m)
    Q_ENUMS(E)
public:
    enum class E { A };
    QObject() = default;
    QObject(const QObject &);
    QObject &operator=(const QObject &) = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    bool lockForRead() const;
public:
    int operator+(int b);
    int reset(QObject, const QObject & text, QObject * width) const;
    void operator<(QObject * timerType);
    char operator[](QObject * sender) {
        ((*sender) + (sender->reset(QObject{}, QObject(), new QObject()) + (*sender)[static_cast<QObject *>(nullptr)]));

    }
    const char * takeAt(int b) const {
        int v1 = (QObject()).reset(QObject{}, QObject(), new QObject());
        return (QObject{}).takeAt((QObject{}).reset(QObject(), QObject{}, new QObject()));
    }
private:
    int m_list{};
    double lastDecl{};
};
int QObject::operator+(int b)
{
    return (((QObject{})) + ((QObject{}))[static_cast<QObject *>(nullptr)]);
}
struct QVector
{
public:
    enum class E { A };
    QVector();
    explicit QVector(int timerType, int slot, int s) {}
    virtual ~QVector() = default;
    const int *begin() const;
    const int *end() const;
    static int open(int method) {
        return ((QObject()).lockForRead() * true);
    }
    virtual int addTransition(QVector base64, const char * sender, const char * base, const char * s, const QObject & timerType) const {
        while (((QObject{}))[new QObject()]) {
            auto v3 = qobject_cast<QVector *>(&base64);
            break;
        }
        base64 = base64;
        return (base64.rbegin(&base64) * 1000);
    }
    int rbegin(QVector * other) {
        ((QObject()))[new QObject()];
        return 42u;
    }
    static int start(const char * interval = "d", int mask = 0, const char * s = "d", const char * signal = "d", const char * other = "d");
    QVector * constEnd(QVector sender, QObject * s = nullptr) {
        for (int v6 = 0; v6 < QObject().reset(QObject(), QObject(), new QObject()); ++v6) {
            for (auto &&v7 : sender) {
                sender.addTransition(sender, "(I)V", s->takeAt(0), s->takeAt(((*s) + 100 * 2)), QObject{});
                ((*s) + v6);
                Conn::tr(nullptr, [] { return 0; }, SLOT(deleteLater()), &QObject::takeAt, Qt_UniqueConnection);
            }
            ((*s) < new QObject());
            for (auto v12 : sender) {
                auto v13 = qobject_cast<QObject *>(s);
                QVector v14 = sender;
            }
            if ((sender).addTransition(sender, s->takeAt(100 * 2), s->takeAt(0), (QObject{}).takeAt(100 * 2), QObject())) {
            }
        }
        return sender.constEnd(QVector(sender.rbegin(new QVector()), true, 1), static_cast<QObject *>(nullptr));
    }
protected:
    int m_timer;
};
class QVariant
{
public:
    typedef int Key;
    QVariant() {}
    QVariant(const QVariant &);
    QVariant &operator=(const QVariant &) = default;
    virtual ~QVariant() = default;
    const int *begin() const;
    const int *end() const;
    static int set();
    const QObject & fromUtf8(const QVariant * base64, QVariant b, QVector *) const;
    int operator+=(QVector fieldWidth) const;
    int push_back(QVariant & fillChar, QVariant * text) const {
        (QVector('x', (QObject()).reset(QObject{}, QObject(), static_cast<QObject *>(nullptr)), 500)).open((QVector()).addTransition(QVector{}, "a\0b", "x", (QObject{}).takeAt(1), fillChar.fromUtf8(new QVariant(), QVariant(), new QVector())));
        return (QVector{}).rbegin(nullptr);
    }
protected:
    const QVariant * m_timer;
};
const QObject & QVariant::fromUtf8(const QVariant * base64, QVariant b, QVector *) const
{
    ((b) += QVector());
    (QVector{}).addTransition(QVector((QVariant{}).set(), 1 << 4, 100 * 2), (b.fromUtf8(new QVariant(), QVariant{}, new QVector())).takeAt(100 * 2), ((QVariant()).fromUtf8(new QVariant(), QVariant{}, new QVector())).takeAt(((QObject{}))[static_cast<QObject *>(nullptr)]), (QObject()).takeAt((QVector{}).rbegin(static_cast<QVector *>(nullptr))), (b).fromUtf8(nullptr, *base64, (QVector{}).constEnd(QVector{})));
    return base64->fromUtf8(static_cast<QVariant *>(nullptr), b, (QVector{}).constEnd(QVector()));
}
const char * use0(const QObject & shortcut)
{
    return shortcut.takeAt((((QObject{})) + 500));
    (((QObject{})) < nullptr);

    return shortcut.takeAt((QVector{}).addTransition(QVector{}, "%1 %2", "[a-z]+", "QObject", QObject{}));
}
