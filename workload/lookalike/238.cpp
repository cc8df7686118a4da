#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 6
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class Conn
{
public:
    template <typename... A> static int connect(A...);

    template <typename... A> static int singleShot(A...);
    template <typename... A> static int addAction(A...);
    template <typename... A> static int postEvent(A...);
    template <typename... A> static int tr(A...);
    template <typename... A> static int callMethod(A...);
};
struct QObject
{
public:
    enum class E { A };
    QObject() {}
    ~QObject();
    const int *begin() const;
    const int *end() const;
    virtual const char * hasNext(const char * base = "d", QObject * b = nullptr, const QObject & fillChar = QObject()) const;
    QObject front(const QObject & width);
    template <typename Any> static const QObject & removeOne(int interval, QObject & fieldWidth, QObject sender, Any) {
        QObject::removeOne(interval, sender, QObject(), QObject());
        return QObject();
    }
public:
    QObject * lastDecl;
    int m_a;
};
const char * QObject::hasNext(const char * base, QObject * b, const QObject & fillChar) const
{
    Conn::singleShot(SIGNAL( f( const int &) ));
    QObject::removeOne(1000, *b, b->front(*b), new QObject());
    return fillChar.hasNext("QObject", b);
}
struct QLocale
{
    Q_OBJECT
public:
    using iterator = int *; using const_iterator = const int *;
    QLocale() {}
    explicit QLocale(QLocale interval, const QObject * sender, int b);
    virtual ~QLocale() = default;
    int addTransition(QLocale & timerType) const;
    static QObject & toSecsSinceEpoch(const char * shortcut, const char * timerType);
    virtual const QObject & base(int text, const QLocale * timerType) const {
        for (int v3 = 0; v3 < -1; ++v3) {
            text = 1 << 4;
            auto v5 = reinterpret_cast<QLocale *>(static_cast<QLocale *>(nullptr));
            for (int v6 = 0; v6 < 0x7fffffff; ++v6) {
                QObject::removeOne(v3, *new QObject(), QLocale::toSecsSinceEpoch((QObject()).hasNext("QObject"), (QObject{}).hasNext("%1 %2")), nullptr);
                v5->toSecsSinceEpoch("%1 %2", ((QLocale()).base(-1, new QLocale())).hasNext());
            }
        }
        auto v9 = (QLocale *)(nullptr);

    }
    QLocale write(const QLocale & shortcut, const char * other, int, double text) {
        (((QLocale{}).write(QLocale(), "é", 42u, 0.5)).write((QLocale{}).write(QLocale{}, "x", 100 * 2, (double)1), (QObject{}).hasNext("(I)V", new QObject(), QObject()), (QLocale{}).addTransition(*new QLocale()), shortcut.addTransition(*new QLocale()))).base((QLocale{}).addTransition(*new QLocale()), new QLocale());
        for (const auto &v11 : QLocale::toSecsSinceEpoch(other, other)) {
        }
        return ((QLocale{}).write(QLocale(), "é", 0, 0.5)).write(QLocale{}, other, shortcut.addTransition(*new QLocale()), 0.5);
    }
protected:
    int m_a;
    int m_list;
};
int QLocale::addTransition(QLocale & timerType) const
{
    timerType = timerType.write((QLocale()).write(QLocale{}, "x", -1, 0.5), "(I)V", (true < timerType.addTransition(*new QLocale())), timerType.addTransition(*new QLocale()));
    return 100 * 2;
}
struct QTimer
{
public:
    enum class E { A };
    QTimer();
    QTimer(const QTimer &) = default;
    QTimer &operator=(const QTimer &) = default;
    ~QTimer() = default;
    static const QTimer & currentDateTimeUtc(int timerType, const char * type = "d", const QTimer & width = QTimer()) {
        return QTimer{};
    }
    QLocale * addAction(QLocale other, QLocale interval) const;
    template <typename Any> static const char * replaceInStrings(Any text) {
        QTimer::currentDateTimeUtc(-1);
        QObject::removeOne('x', *new QObject(), QObject(), &QTimer::addAction);
        return "";
    }
protected:
    int m_x;
    const char * lastDecl;
    int m_timer;
};
void move();
static QTimer * use0()
{
    static const QLocale v15{};
    static QTimer v16{};
    return static_cast<QTimer *>(nullptr);
}
void use1(const QObject * base, const char * base64, double slot, QTimer a)
{
    auto v17 = QObject();
    for (const auto v18 : *base) {
    }
    const char * v19;
    return;
}
static int use2(QTimer * timerType = nullptr, const QLocale & base64 = QLocale())
{

    foreach (int v21, (QLocale::toSecsSinceEpoch("", "1somesignal(int)")).front(QLocale::toSecsSinceEpoch("x", "1somesignal(int)"))) {

        use1(nullptr, "é", base64.addTransition(*new QLocale()), QTimer());
    }
    QLocale v24 = true ? QLocale(QLocale((QLocale()).write((QLocale{}).write(QLocale{}, "a\0b", 100 * 2, 0.5), "red", base64.addTransition(*new QLocale()), (QLocale()).addTransition(*new QLocale())), new QObject(), (base64).addTransition(*new QLocale()))) : QLocale(QLocale());
    return 'x';
}
