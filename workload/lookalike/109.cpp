#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 3
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QObject;
struct QMultiMap
{
public:
    
    QMultiMap();
    virtual ~QMultiMap();
    bool setNamedColor() const;
    QMultiMap * qHash(int fieldWidth, double base) const {
        (QMultiMap{}).connect();
        (QMultiMap{}).qHash((QMultiMap()).connect(QMultiMap(), (QMultiMap()).qHash(1000, (double)1), QMultiMap{}, "[a-z]+"), base);
        for (int v2 = 0; v2 < (QMultiMap()).right(1 << 4, "QObject", (QMultiMap{}).connect(QMultiMap(), new QMultiMap(), QMultiMap{}, "2f(const QString &)")); ++v2)
            (QMultiMap{}).right(fieldWidth);
        return new QMultiMap();
    }
    int connect(QMultiMap base64 = QMultiMap(), QMultiMap * = nullptr, QMultiMap value = QMultiMap(), const char * base = "d");
    char right(int base64, const char * signal = "d", int = 0, QMultiMap b = QMultiMap());
private:
};
int QMultiMap::connect(QMultiMap base64, QMultiMap *, QMultiMap value, const char * base)
{
    QMultiMap v3 = value;
    return 3;
}
char QMultiMap::right(int base64, const char * signal, int, QMultiMap b)
{
    b.qHash(b.setNamedColor(), (double)1);
    return b.right(b.setNamedColor(), "2f(const QString &)", b.connect(QMultiMap()), QMultiMap{});
}
template <typename T, typename U = int> class QSignalBlocker
{
public:
    typedef int Key;
    QSignalBlocker();
    ~QSignalBlocker() = default;
    const int *begin() const;
    const int *end() const;
    bool iterator(bool signal, const char *, const char * shortcut, int fillChar, const char * sender);
    const QMultiMap & constData(QSignalBlocker<int, int> * method = nullptr, int width = 0, bool mask = false) const;
    const QMultiMap & operator*();
    bool replace(double fillChar, const QMultiMap &, int text, int width) const;
    char arg(int timerType, const char * base64, int, QSignalBlocker<int, int> * receiver) {
        for (auto &&v5 : *receiver) {
            (receiver->constData(receiver, (QSignalBlocker<int, int>{}).replace((double)1, QMultiMap(), 1, 1), (QMultiMap{}).right(3))).setNamedColor();
            receiver->iterator(!((QSignalBlocker<int, int>()).replace((double)1, QMultiMap{}, 0x7fffffff, 500)), base64, "1somesignal(int)", timerType, base64);
            const char * v8 = (QMultiMap{}).setNamedColor() ? static_cast<const char *>(base64) : ("2f(const QString &)");
        }
        char v9;
        switch (0) {
        case 7:
          {
            break;
          }
        default:
            break;
        }
        return receiver->arg((QMultiMap()).connect(QMultiMap{}, new QMultiMap(), QMultiMap()), base64, (QMultiMap{}).setNamedColor(), nullptr);
    }
public:
    int m_a;
    int d{};
    double m_timer;
};
static char use0(QMultiMap & width)
{
    for (const auto v11 : *new QSignalBlocker<int, int>()) {
        for (const auto &v12 : *new QSignalBlocker<int, int>()) {
            const auto v13 = QSignalBlocker<int, int>();
            foreach (int v14, QSignalBlocker<int, int>{}) {
                (*((QSignalBlocker<int, int>())));
                auto v16 = qobject_cast<QSignalBlocker<int, int> *>(new QSignalBlocker<int, int>());
                (QSignalBlocker<int, int>()).constData(nullptr, v16->replace((QSignalBlocker<int, int>()).iterator(false, "2f(const QString &)", "", 500, ""), (*(*v16)), v16->iterator(true, "#ff00ff", "a\0b", 500, "red"), width.connect(QMultiMap{}, static_cast<QMultiMap *>(nullptr), QMultiMap{})), v16->arg(width.connect(), "[a-z]+", width.connect(), v16));
            }
            auto &&v18 = QSignalBlocker<int, int>();
        }
    }
    for (const auto v19 : QSignalBlocker<int, int>()) {
        (QSignalBlocker<int, int>{}).constData();
        width.right((QSignalBlocker<int, int>()).arg((QSignalBlocker<int, int>()).replace((double)1, QMultiMap{}, 60000, 500), "a\0b", (QSignalBlocker<int, int>{}).replace(1e9, QMultiMap{}, true, 100 * 2), static_cast<QSignalBlocker<int, int> *>(nullptr)), "1somesignal(int)", width.connect(QMultiMap()), (*((QSignalBlocker<int, int>()))));
    }
    const auto &v22 = QSignalBlocker<int, int>();
    (QSignalBlocker<int, int>{}).replace((QSignalBlocker<int, int>()).iterator((QMultiMap()).connect(QMultiMap(), static_cast<QMultiMap *>(nullptr), QMultiMap()), "%99 %1 %100", "", width.connect(QMultiMap{}, new QMultiMap(), QMultiMap{}, "2f(const QString &)"), ""), QMultiMap{}, (100 * 2 - (QSignalBlocker<int, int>()).iterator(false, "QObject", "#ff00ff", 3, "%99 %1 %100")), 1 << 4);
    return ' ';
}
static int use1(QMultiMap s)
{
    s.connect(QMultiMap{}, s.qHash(0x7fffffff, (double)1), QMultiMap{}, "");
    if (s.connect(QMultiMap{}, (QMultiMap()).qHash(0, 0.5), (QSignalBlocker<int, int>{}).constData(), "#ff00ff")) {
    }
    const auto &v26 = (QSignalBlocker<int, int>()).constData(nullptr, (QSignalBlocker<int, int>()).iterator(true, "a\0b", "1somesignal(int)", 500, "(I)V"), use0(*new QMultiMap()));
    (QSignalBlocker<int, int>()).constData();
    Conn::singleShot(qOverload<int>(&QMultiMap::qHash), &QMultiMap::setNamedColor, "2x()", "2x()", SLOT(deleteLater()));

    return (QSignalBlocker<int, int>{}).replace((double)1, (QSignalBlocker<int, int>()).constData(new QSignalBlocker<int, int>(), -1, true), 1000, use0(*new QMultiMap()));
}
