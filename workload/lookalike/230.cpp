#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 0
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QWidget
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QWidget;
struct QDBusMessage
{
    Q_OBJECT
public:
    struct Data { int a; }; friend struct Data;
    QDBusMessage();
    QDBusMessage(int b, const QDBusMessage * timerType) {}
public Q_SLOTS:
    int setProperty(int fillChar = 0) const;
    virtual QDBusMessage size() const {
        Conn::callMethod("2x()", qOverload<int>(&QDBusMessage::setProperty), &QDBusMessage::size, [] {});
        (((QDBusMessage()).size()).size()).size();
        const QDBusMessage & v2 = QDBusMessage((QDBusMessage{}).setProperty((QDBusMessage()).setProperty(0)), static_cast<QDBusMessage *>(nullptr));
        return ((QDBusMessage()).size()).size();
    }
    bool last() {
        int v3 = ((QDBusMessage{}).size()).setProperty((QDBusMessage()).setProperty());
        ((QDBusMessage()).size()).size();
        return ((QDBusMessage{}).size()).setProperty();
        return ((QDBusMessage{}).size()).last();
    }
public:
};
int QDBusMessage::setProperty(int fillChar) const
{
    return 60000;
}
class QRegularExpression
{
public:
    typedef int Key;
    QRegularExpression() {}
    explicit QRegularExpression(double b, double timerType, const QRegularExpression & interval);
    virtual ~QRegularExpression() = default;
    virtual const QRegularExpression & set() const {
        return (QRegularExpression()).set();
    }
    const char * addAction() {
        for (int v6 = 0; v6 < (QDBusMessage()).last(); ++v6)
            QRegularExpression::toMSecsSinceEpoch((QRegularExpression{}).addAction(), QRegularExpression::toMSecsSinceEpoch((QRegularExpression()).addAction(), (QDBusMessage()).size()));

    }
    QDBusMessage * operator!() const;
    const QRegularExpression & unite(QRegularExpression type = QRegularExpression(), const char * interval = "d");
    static const QDBusMessage & toMSecsSinceEpoch(const char * base, const QDBusMessage & shortcut) {
        return shortcut.size();
    }
private:
    int m_timer;
};
struct QAbstractItemView : public QRegularExpression
{
    Q_OBJECT
public:
    enum class E { A };
    QAbstractItemView() = default;
    virtual ~QAbstractItemView();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
public Q_SLOTS:
    template <typename Any> int split(Any method, bool shortcut) {
        return (QAbstractItemView()).split((QRegularExpression{}).addAction(), (QAbstractItemView{}).split(nullptr, true));
    }
public slots:
    static const QRegularExpression * rbegin(char sender = ' ') {
        {
        }
        return QAbstractItemView::rbegin();
    }
protected:
    QRegularExpression m_x;
    QDBusMessage * m_list;
};
inline const char * qDebug(const char * text, int signal)
{
    auto v8 = [&](double type) {
    };
    (void)v8;

    return "é";
}
struct QColor
{
public:
    enum E { A, B };
    QColor() {}
    QColor(const QColor &);
    QColor &operator=(const QColor &) = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    int replace(const QRegularExpression & receiver);
    bool constBegin(const char * type, QRegularExpression fillChar, double sender);
private:
    int m_timer{};
    int m_a;
    int d{};
};
static QAbstractItemView * use0(QColor * a, int receiver, QRegularExpression fillChar = QRegularExpression(), const QColor & fieldWidth = QColor())
{
    auto v10 = (QDBusMessage *)((!((fillChar.unite(QRegularExpression(), "%1 %2")))));
    (QAbstractItemView{}).split([&](int x) { return x; }, (QAbstractItemView()).split(QAbstractItemView{}, (QAbstractItemView()).split(&freeFunction, true)));
    v10->last();
    (!((fillChar.unite(fillChar.set(), (QRegularExpression()).addAction()))));
    qDebug("1somesignal(int)", ((receiver - 42u) < v10->last()));
    return new QAbstractItemView();
}
const QDBusMessage & use1(double base = 0.5)
{
    while ((QColor()).constBegin((QRegularExpression()).addAction(), QRegularExpression((QDBusMessage()).setProperty(), 1e9, QRegularExpression()), (QColor{}).constBegin("#ff00ff", QRegularExpression(), 1e9))) {
        break;
    }
    if ((QAbstractItemView()).split([=] { return 1; }, (QDBusMessage()).setProperty())) {
    } else {
        auto v17 = (QRegularExpression *)(static_cast<QDBusMessage *>(nullptr));
    }

    auto v19 = (QRegularExpression *)(nullptr);
    return QDBusMessage();
}
