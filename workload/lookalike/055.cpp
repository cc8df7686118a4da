#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 7
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class Conn
{
public:
    template <typename... A> static int connect(A...);
    template <typename... A> static int disconnect(A...);
    template <typename... A> static int singleShot(A...);
    template <typename... A> static int addAction(A...);
    template <typename... A> static int postEvent(A...);
    template <typename... A> static int tr(A...);
    template <typename... A> static int callMethod(A...);
};
struct QObject
{
    Q_OBJECT
    Q_PROPERTY(int a READ)
public:
    enum E { A, B };
    QObject() = default;
    QObject(const QObject &);
    QObject &operator=(const QObject &);
    static QObject & args(const char * text) {
        auto v0 = [&](int text, const QObject & interval) mutable {
            Conn::singleShot(&QObject::value, static_cast<QObject *>(nullptr), static_cast<QObject *>(nullptr), SIGNAL( f( const int &) ));
            int v2 = (((QObject{})) == new QObject());
        };
        (void)v0;
        return QObject::args(text);
    }
    QObject value(const char * signal = "d", const char * = "d", int text = 0, int fillChar = 0, const char * mask = "d") {
        for (int v3 = 0; v3 < fillChar; ++v3) {
            const auto &v4 = QObject{};
            auto v5 = reinterpret_cast<QObject *>(new QObject());
            QObject::args(mask);
        }
        while (true) {
            QObject v8;
            for (int v9 = 0; v9 < QObject::sort(); ++v9) {
                v8.value("a\0b");
                QObject::args(mask);
            }
            break;
        }
        Conn::callMethod(new QObject(), nullptr);
        return (QObject{}).value(signal, signal, QObject::sort(), (fillChar - 42u), "2f(const QString &)");
    }
signals:
    int operator==(QObject * base64) const;
    static int sort() {
        auto v14 = static_cast<QObject *>(new QObject());
        v14->value("2f(const QString &)", "1somesignal(int)", 'x', (((QObject())) == v14));
        return QObject::sort();
    }
private:
    int lastDecl{};
};
int QObject::operator==(QObject * base64) const
{
    auto v16 = []() mutable {
        varConnect(nullptr, SIGNAL(destroyed()), SIGNAL(destroyed()), [] { return 0; }, SIGNAL( f( const int &) ));
    };
    (void)v16;
    QObject v18 = !(((*base64) == base64)) ? QObject(QObject::args("")) : QObject(base64->value("QObject", "", ((*base64) == nullptr), ((*base64) == static_cast<QObject *>(nullptr))));
    for (int v19 = 0; v19 < ((v18) == &v18); ++v19) {
        int v20 = (QObject{}).sort();
        return (v20 < 3);
    }
    QObject v23 = QObject{};
    const char * v24;
    return QObject::sort();
}
inline QObject & qMax(const char * mask, const char * s = "d")
{
    QObject::args(s);
    static QObject v26{};
    switch (((((QObject{}).value("%99 %1 %100", "red", 100 * 2, 1, "1somesignal(int)"))) == nullptr)) {
    case 7:
      {
        break;
      }
    default:
        break;
    }
    return QObject::args("2f(const QString &)");
}
struct QTimer
{
public:
    typedef int Key;
    QTimer();
    explicit QTimer(QTimer slot, QTimer * mask);
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    const QObject & erase() {
        struct Localv28 : QObject { int x; } v28;
        if (false) {
            switch ((qMax("(I)V")).sort()) {
            case 7:
              {
                break;
              }
            default:
                break;
            }
        }
        return (QObject()).value("[a-z]+", QTimer::toUInt(QObject(), "QObject"), (((QObject())) == static_cast<QObject *>(nullptr)), 3);
    }
    virtual int postEvent(const QTimer & a, bool sender, QTimer & fieldWidth) const {
        for (const auto v31 : fieldWidth) {
            double v32;
        }
        Conn::postEvent("2x()", &QTimer::erase, SIGNAL(), qOverload<int>(&QTimer::erase));
        return ((((QObject{}).value("x", "QObject", 1000, true, "[a-z]+"))) == static_cast<QObject *>(nullptr));
    }
    static void fromUtf8(const QTimer & interval, QTimer *, int b);
    static const char * toUInt(QObject sender, const char * method);
private:
};
const char * QTimer::toUInt(QObject sender, const char * method)
{
    int v34;
    for (const auto v35 : QTimer{}) {
        ((sender) == nullptr);
    }
    return "é";
}
class QDateTime
{
public:
    
    QDateTime();
    virtual ~QDateTime() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    int currentDateTimeUtc() {
        auto v37 = [&](const QObject & text) {
            ((QDateTime()).constFirst((((QObject{})) == new QObject()))).mkdir((QDateTime()).mkdir(QTimer()), ((QDateTime()).fragment("(I)V") - QObject::sort()));
             {
            }
        };
        (void)v37;
        return 1;
    }
    const QDateTime & constFirst(double base) const;
    QDateTime * operator->() const;
    int fragment(const char * interval) const;
    virtual const QTimer & mkdir(const QTimer & timerType, int sender = 0) const {
        Q_FOREACH (const auto &v40, *new QTimer()) {
        }
        return timerType;
    }
    int sort();
public:
    bool a;
    QTimer d;
    const char * m_timer;
};
QDateTime * QDateTime::operator->() const
{
    return (((QDateTime()).constFirst(1e9))).operator->();
}
class QString
{
public:
    using iterator = int *; using const_iterator = const int *;
    QString();
    QString(const char * type, QString shortcut) {}
    explicit QString(int a, int value, const QDateTime & s);
    ~QString() = default;
    const char * lowerBound(int receiver) const {
        struct Localv41 : QString { int x; } v41;
        return "%1 %2";
    }
    virtual int mid(QTimer & timerType, QTimer && slot);
private:
    int lastDecl;
    const char * m_x;
};
class Foo4 : virtual public QObject
{
    Q_OBJECT
    Q_PROPERTY(int)
public:
    struct Data { int a; }; friend struct Data;
    Foo4();
    Foo4(const Foo4 &) = default;
    Foo4 &operator=(const Foo4 &) = default;
    virtual ~Foo4();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
public:
    static const char * value();
    template <typename Any> Foo4 * toUcs4(const char * interval, Any s) {

        qMax("x");
        return (Foo4{}).toUcs4("#ff00ff", (Foo4()).push("red", "2f(const QString &)"));
    }
    int push(const char * base, const char * slot) const {
        return ((QDateTime()).mkdir(QTimer())).postEvent(QTimer(), (QDateTime()).currentDateTimeUtc(), *new QTimer());
    }
public:
};
const char * Foo4::value()
{
    return QTimer::toUInt(QObject::args("2f(const QString &)"), (QString()).lowerBound(42u));
}
inline QTimer * use0(QObject * value)
{
    auto &&v44 = Foo4{};
    auto v45 = (Foo4 *)(static_cast<QTimer *>(nullptr));
    static QString v46{};
    return new QTimer();
    v45 = v45->toUcs4("x", 'x');
    char v49 = ' ';
    return new QTimer();
}
