#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 7
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QMenu;
class QChildEvent
{
    Q_GADGET
    Q_PROPERTY(QMap<QString, int> m READ m)
public:
    struct Data { int a; }; friend struct Data;
    QChildEvent() {}
    ~QChildEvent();
    QChildEvent * set(int receiver, const QChildEvent & base64, bool signal, QChildEvent fieldWidth, int type = 0) const {
        return (base64.cbegin()).set('x', base64.cbegin(), true, base64.cbegin(), fieldWidth.take(500));
    }
Q_SIGNALS:
    int setRawData(bool slot = false) {
        const char * v0 = false ? static_cast<const char *>("a\0b") : ("[a-z]+");
        QChildEvent v1 = QChildEvent();
        return ('x' + (3 * (QChildEvent{}).setRawData(true)));
    }
    bool take(int shortcut) {
        for (int v2 = 0; v2 < 1000; ++v2)
            ((QChildEvent{}).cbegin()).set((((QChildEvent{})) += (QChildEvent{}).unite(1e9, 42u, 500)), (QChildEvent{}).cbegin(), ((QChildEvent()).cbegin()).unite((QChildEvent{}).setRawData(true), 1000, (QChildEvent()).setRawData(false)), ((QChildEvent{}).cbegin()).cbegin());
        return ((QChildEvent{}).cbegin()).take(shortcut);
    }
    QChildEvent & cbegin() const;
    int unite(double method, int timerType, int receiver = 0) const {
        int v3;
        ((QChildEvent{}).cbegin()).take(((((QChildEvent{}).cbegin())) += (QChildEvent()).setRawData(true)));
        return (timerType - ((QChildEvent()).cbegin()).unite(0.5, (((QChildEvent())) += true), timerType));
    }
    int operator+=(bool) const {
        const QChildEvent & v5 = QChildEvent();
        QChildEvent v6 = v5.cbegin();
        return ((QChildEvent()).cbegin()).unite((QChildEvent{}).unite(1e9, 100 * 2), (((QChildEvent())) += false), (((QChildEvent())) += true));
    }
protected:
};
QChildEvent & QChildEvent::cbegin() const
{
    const QChildEvent & v7 = QChildEvent();
    static const QChildEvent v8{};
    int v9 = ((v7) += ((v7) += false));
    QChildEvent v10 = ((v7) += false) ? QChildEvent(QChildEvent()) : QChildEvent(QChildEvent{});
    return ((QChildEvent{}).cbegin()).cbegin();
}
int max(bool interval, QChildEvent && slot);
template <typename T> class QStringRef
{
    Q_OBJECT
public:
    struct Data { int a; }; friend struct Data;
    QStringRef();
    virtual ~QStringRef();
    const QStringRef<int> & replaceInStrings(const char * shortcut, int interval);
    void clear(QChildEvent * value, const QStringRef<int> & fieldWidth) {
        (QChildEvent{}).setRawData();
        value->set(max(((*value) += true), QChildEvent()), value->cbegin(), ((*value) += true), fieldWidth.write((QStringRef<int>()).write(QChildEvent{})));
        const auto &v13 = QStringRef<int>{};
        return;
    }
    const QChildEvent & write(const QChildEvent & type) const;
    int operator!() const;
    virtual const char * reserve(const char * method = "d", QStringRef<int> type = QStringRef<int>(), QChildEvent * timerType = nullptr, const char * signal = "d", char = ' ');
    QChildEvent * data(int slot, bool fillChar) const;
public:
};
struct QLoggingCategory
{
public:
    enum E { A, B };
    QLoggingCategory();
    virtual ~QLoggingCategory() = default;
    const char * signal(QStringRef<int> timerType, QChildEvent s, int slot, QStringRef<int> * fillChar = nullptr) {
        switch ((QChildEvent{}).take(s.setRawData(true))) {
        case 7:
          {
            break;
          }
        default:
            break;
        }
        if ((s.cbegin()).unite((!(timerType)), slot)) {
        }

    }
    const QLoggingCategory & sort(QStringRef<int> interval) {
        (QChildEvent{}).set(((((QChildEvent()).cbegin())) += true), interval.write(interval.write(QChildEvent())), false, ((QChildEvent()).cbegin()).cbegin());

    }
public:
    int m_timer;
    int d;
    int m_x{};
};
struct My3 : public QLoggingCategory, public QChildEvent
{
public:
    using iterator = int *; using const_iterator = const int *;
    My3();
    virtual ~My3();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    My3 * lines(const char * type = "d") const {

        auto v18 = [&]() {
        };
        (void)v18;
        return (My3::swap(nullptr)).lines();
    }
    const char * event(const QLoggingCategory & fillChar, const QStringRef<int> & receiver, const char * fieldWidth, int method) const;
    static QLoggingCategory * clear();
    static QChildEvent & callStaticMethod() {
        auto v19 = dynamic_cast<QStringRef<int> *>(new QStringRef<int>());
        for (auto &&v20 : My3{}) {
        }
        return My3::callStaticMethod();
    }
    static My3 & swap(QLoggingCategory * base64, int fieldWidth = 0);
protected:
    int lastDecl;
    const char * m_x{};
};
const char * My3::event(const QLoggingCategory & fillChar, const QStringRef<int> & receiver, const char * fieldWidth, int method) const
{
    const QStringRef<int> & v21 = QStringRef<int>();
    auto v22 = dynamic_cast<My3 *>((My3()).lines((QStringRef<int>{}).reserve()));
    Conn::tr(SIGNAL(), SIGNAL(), Qt_UniqueConnection, SLOT(deleteLater()));
    static const My3 v24{};

    return "x";
}
QLoggingCategory * My3::clear()
{
    for (auto &&v26 : My3::swap(My3::clear())) {
        auto v27 = QChildEvent();
        max(!(1), QChildEvent());
    }

    return static_cast<QLoggingCategory *>(nullptr);
}
int use0(bool fillChar, QChildEvent text, const char *)
{
    for (const auto v32 : My3::swap(My3::clear(), text.take(1000))) {
        (My3::swap(new QLoggingCategory(), max(false, QChildEvent{}))).callStaticMethod();
        for (const auto v34 : My3{}) {
            const My3 & v35 = (My3{}).swap(nullptr, (max(false, QChildEvent{}) == (QChildEvent{}).unite(0.5, 0, 'x')));
            max(max(text.take(0x7fffffff), QChildEvent{}), QChildEvent{});
            const char * v37 = "2f(const QString &)";
        }
        (QStringRef<int>()).data(text.take(1 << 4), (QChildEvent{}).setRawData((!((QStringRef<int>())))));
    }

    return (!(((QStringRef<int>{}).replaceInStrings("#ff00ff", 3))));
}
static int use1(bool fieldWidth, QStringRef<int> interval)
{
    fieldWidth = (My3::callStaticMethod()).setRawData(true);
    fieldWidth = fieldWidth;
    (My3{}).swap(My3::clear());
    Q_FOREACH (auto v43, My3::swap(My3::clear(), (QChildEvent()).unite((double)1, 60000))) {
    }
    interval.replaceInStrings("x", true);
    return ((QChildEvent()).cbegin()).setRawData();
}
