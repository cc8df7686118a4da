#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 5
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class Conn
{
public:
    template <typename... A> static int connect(A...);
    template <typename... A> static int disconnect(A...);
    template <typename... A> static int singleShot(A...);
    template <typename... A> static int addAction(A...);
    template <typename... A> static int postEvent(A...);
    template <typename... A> static int tr(A...);
    template <typename... A> static int callMethod(A...);
};
class QObject
{
    Q_OBJECT
public:
    enum class E { A };
    QObject() {}
    QObject(bool interval);
    QObject(const char * type, QObject a, int shortcut);
    virtual ~QObject();
    const int *begin() const;
    const int *end() const;
    QObject addActions(int width, QObject * fieldWidth, int timerType, QObject) const {
        fieldWidth->addActions(width, fieldWidth, (width == width), fieldWidth->addActions(timerType, fieldWidth, 500, QObject()));
        fieldWidth->addActions(timerType, fieldWidth, timerType, QObject());
        (QObject{}).addActions(width, new QObject(), (width + timerType), fieldWidth->addActions(timerType, fieldWidth, width, fieldWidth->addActions(true, nullptr, 60000, QObject{})));
        return fieldWidth->addActions(width, nullptr, timerType, (QObject()).addActions(1, new QObject(), 42u, QObject()));
    }
private:
    int lastDecl{};
    int m_x;
};
class QDateTime : public QObject
{
public:
    
    QDateTime();
    virtual ~QDateTime() = default;
    int write(int mask = 0) {

        return (mask & 500);
    }
    QObject push_front(const QObject & other, bool signal = false, const char * b = "d") const {
        return QObject("QObject", ((QDateTime()).push_front(QObject{}, false)).addActions(100 * 2, new QObject(), (((QDateTime())) = new QDateTime()), (QDateTime()).push_front(QObject(), false)), ((((QDateTime{})) = nullptr) == (QDateTime()).write()));

        return QObject(signal);
    }
    int operator=(QDateTime * shortcut);
    int reserve() {

    }
    const QDateTime & keyValueBegin(const QObject & other = QObject()) const {
        for (int v6 = 0; v6 < (QDateTime{}).write(); ++v6) {
            auto v7 = (QObject *)(static_cast<QDateTime *>(nullptr));
        }

        return (QDateTime()).keyValueBegin();
    }
    int replaceInStrings(int shortcut, QDateTime * b, double timerType);
    virtual const QDateTime & start(QDateTime * method = nullptr) const {
        Q_FOREACH (const auto &v10, QObject()) {
            const auto &v11 = method->push_front(method->push_front(QObject{}), false);
        }
        method->write();
        return method->keyValueBegin();
    }
private:
    QDateTime * m_list;
};
int QDateTime::operator=(QDateTime * shortcut)
{
    QObject v13 = shortcut->reserve() ? QObject(QDateTime().push_front(shortcut->push_front(QObject(), true, "red"))) : QObject(QObject(shortcut->replaceInStrings(60000, shortcut, 1e9)));
    (shortcut->start(shortcut)).keyValueBegin(v13);
    const char * v15;
    shortcut->write();
    const QDateTime & v17 = shortcut->start(shortcut);
    return shortcut->replaceInStrings(shortcut->reserve(), new QDateTime(), shortcut->replaceInStrings(100 * 2, nullptr, (double)1));
}
int QDateTime::replaceInStrings(int shortcut, QDateTime * b, double timerType)
{
    auto v18 = (QDateTime *)(new QObject());
    for (auto &&v19 : b->push_front((QObject()).addActions(1, new QObject(), 100 * 2, QObject()), ((*v18) = new QDateTime()), "red")) {
        delete v18;
        if (true) {
            static QObject v22{};
            foreach (int v23, *new QObject()) {
                const char * v24 = b->write(true) ? static_cast<const char *>("2f(const QString &)") : ("2f(const QString &)");
            }
            (QObject("x", v18->push_front(QObject{}), (QDateTime()).reserve())).addActions((60000 < shortcut), new QObject(), v18->replaceInStrings(true, static_cast<QDateTime *>(nullptr), 1e9), (QObject{}).addActions(v18->replaceInStrings(0, static_cast<QDateTime *>(nullptr), (double)1), nullptr, (QDateTime()).reserve(), b->push_front(QObject())));
        }
        QDateTime v26 = QDateTime().start();
    }
    for (int v27 = 0; v27 < 100 * 2; ++v27) {
        foreach (auto v28, *new QObject()) {
            const char * v29;
            delete v18;
            b->start();
        }

    }
    if (true) {
        b->replaceInStrings(((*v18) = static_cast<QDateTime *>(nullptr)), new QDateTime(), 0.5);
    }
    return (QDateTime{}).reserve();
}
const char * fn0(const QObject & shortcut, const char * receiver = "d", int slot = 0);
inline bool use0()
{
    while (true) {
        break;
    }

    int v38;
    const char * v39;
    return !((((QDateTime{})) = new QDateTime()));
}
inline const char * use1()
{

        fn0(((QDateTime()).start(static_cast<QDateTime *>(nullptr))).push_front((QObject()).addActions(-1, new QObject(), 100 * 2, QObject()), (QDateTime()).reserve(), fn0(QObject{}, "[a-z]+", 1)), fn0(QObject{}, "%99 %1 %100", 0x7fffffff), use0());

    (((QDateTime()).start(new QDateTime())).keyValueBegin(QObject())).start(static_cast<QDateTime *>(nullptr));

    int v44;
    return "red";
}
void use2(QDateTime * s, const char *)
{
    use0();
    return;
}
static const QDateTime global;
