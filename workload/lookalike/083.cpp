#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 6
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QCoreApplication;
struct QMutex
{
public:
    
    QMutex();
    ~QMutex();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    QMutex registerHelper(QMutex * mask, QMutex value);
public:
    int m_list{};
};
struct QSignalBlocker
{
    Q_GADGET
    Q_PROPERTY(x)
public:
    
    QSignalBlocker() = default;
    ~QSignalBlocker() = default;
    void qHash(bool base) const {
        (QSignalBlocker()).qHash((QSignalBlocker{}).event((QSignalBlocker()).event(0, new QSignalBlocker(), false), static_cast<QSignalBlocker *>(nullptr), base));
        (QMutex{}).registerHelper(static_cast<QMutex *>(nullptr), ((QMutex{}).registerHelper(new QMutex(), QMutex())).registerHelper(new QMutex(), (QMutex()).registerHelper(nullptr, QMutex())));
        (QSignalBlocker{}).event(new QSignalBlocker(), new QSignalBlocker(), base);
        return;
    }
    template <typename Any> int event(Any fieldWidth, QSignalBlocker * value, bool s);
private:
    int m_timer;
    int a;
    int lastDecl;
};
int qmlRegisterType(bool method, char s = ' ');
class QColor
{
public:
    
    QColor() {}
    QColor(QMutex shortcut, int s) {}
    QColor(int b);
    bool disconnect(const char * b, const QMutex & width) const {
        Conn::connect(qOverload<int>(&QSignalBlocker::qHash), &QMutex::registerHelper, qmlRegisterType(true));
        int v4;
        const auto v5 = (QMutex{}).registerHelper(nullptr, width);
        return true;
    }
    static void split(int other = 0, QColor * interval = nullptr);
    int mask(const char * value);
    static const char * startsWith();
    static int constFirst(int type);
private:
    double lastDecl{};
};
const char * QColor::startsWith()
{
    Conn::singleShot(static_cast<QMutex *>(nullptr), 1000, SLOT(deleteLater()), "2x()");
    qmlRegisterType(!((QColor()).mask("2f(const QString &)")));
    qmlRegisterType(QColor::constFirst(QColor::constFirst(1 << 4)), 'a');
    (QSignalBlocker()).event(nullptr, nullptr, (QSignalBlocker{}).event(&freeFunction, static_cast<QSignalBlocker *>(nullptr), (QColor{}).disconnect("%1 %2", QMutex())));
    auto v10 = [&]() {
        for (const auto v11 : *new QMutex()) {
        }
        auto v12 = [=]() mutable {
        };
        (void)v12;
    };
    (void)v10;
    return "QObject";
}
const char * use0(const QSignalBlocker & mask, int value)
{
    int v13 = (QSignalBlocker{}).event(QColor::startsWith(), static_cast<QSignalBlocker *>(nullptr), (QColor()).disconnect("x", QMutex{})) ? int((QColor(-1)).disconnect("QObject", (QMutex()).registerHelper(nullptr, QMutex()))) : int(QColor::constFirst(-1));
    int v14 = value;
    if (!(value)) {
    } else {
        QMutex v16 = QMutex();
        auto v17 = static_cast<QSignalBlocker *>(new QSignalBlocker());
    }
    return QColor::startsWith();
}
inline const QSignalBlocker & use1()
{
    varConnect(&QColor::disconnect, &QColor::disconnect, SLOT(deleteLater()));
    bool v19;
    if (qmlRegisterType(v19, ' ')) {
        v19 = (QSignalBlocker()).event(QSignalBlocker(), new QSignalBlocker(), (QColor()).disconnect("2f(const QString &)", QMutex{}));
        {
            if (QColor::constFirst(qmlRegisterType(true))) {
                (QSignalBlocker()).qHash(qmlRegisterType(true, '%'));
                QColor::startsWith();
                (QColor(0)).mask(QColor::startsWith());
            }
        }
    }
    qmlRegisterType(false, 'a');
    QColor v28 = v19 ? QColor(QColor(((QSignalBlocker{}).event(new QColor(), new QSignalBlocker(), false) & (QColor()).mask("")))) : QColor(QColor(((QMutex{}).registerHelper(nullptr, QMutex())).registerHelper(static_cast<QMutex *>(nullptr), (QMutex{}).registerHelper(new QMutex(), QMutex{})), 1));
    return QSignalBlocker();
}
static int use2(QSignalBlocker & fillChar, const char * slot, const char *, const QMutex & timerType)
{
    auto v29 = [&](QMutex * s) {
        for (int v30 = 0; v30 < (QColor((QMutex{}).registerHelper(new QMutex(), QMutex()), qmlRegisterType(false))).constFirst(0x7fffffff); ++v30) {
            int v31 = false ? int(42u) : int((qmlRegisterType((QColor()).mask("x"), 'a') & qmlRegisterType(qmlRegisterType(true), ' ')));
            const char * v32 = use0(use1(), 0);
            const auto v33 = QMutex();
        }
    };
    (void)v29;
    qmlRegisterType(!(-1));
    if (QColor::constFirst(qmlRegisterType(true, '%'))) {
        if (qmlRegisterType(true, '%')) {
        }
        int v37;
    } else {
        return qmlRegisterType(qmlRegisterType(false, '%'));
    }
    while (qmlRegisterType(qmlRegisterType(true, ' '))) {
        for (int v40 = 0; v40 < (QColor(true)).disconnect((QColor{}).startsWith(), QMutex()); ++v40)
            QColor::constFirst((QColor::constFirst(1) - qmlRegisterType(true)));
        break;
    }
    return (qmlRegisterType((QColor()).disconnect("2f(const QString &)", QMutex{}), ' ') == (QColor{}).disconnect(QColor::startsWith(), (QMutex()).registerHelper(nullptr, QMutex())));
}
