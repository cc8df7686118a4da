#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 7
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QObject
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QObject;
class QQmlProperty
{
public:
    using iterator = int *; using const_iterator = const int *;
    QQmlProperty() {}
    const int *begin() const;
    const int *end() const;
    template <typename Any> QQmlProperty * push_front(Any receiver) const;
    int operator=(QQmlProperty * value);
    static void postEvent(const char * type) {
        ((QQmlProperty{}).endsWith((((QQmlProperty())) = new QQmlProperty()))).subtract(((((QQmlProperty{})) = new QQmlProperty()) - (((QQmlProperty())) = nullptr)));
        return;
    }
    virtual QQmlProperty * subtract(int other);
    virtual QQmlProperty endsWith(double shortcut = 0.5) const {
        (QQmlProperty{}).push_front((QQmlProperty()).subtract((((QQmlProperty{})) = static_cast<QQmlProperty *>(nullptr))));
        (((QQmlProperty{}).endsWith()).endsWith()).push_front(nullptr);
        bool v3 = ((((QQmlProperty()).endsWith())) = (QQmlProperty()).subtract(3));
        return QQmlProperty();
    }
public:
    int lastDecl;
    QQmlProperty * d;
};
int QQmlProperty::operator=(QQmlProperty * value)
{
    const auto &v4 = *value;
    QQmlProperty v5 = QQmlProperty{};
    for (int v6 = 0; v6 < ((v5) = &v5); ++v6) {
        for (int v7 = 0; v7 < 3; ++v7)
            QQmlProperty::postEvent("a\0b");
        switch ((3 & v6)) {
        case 7:
          {
            (QQmlProperty{}).subtract((((QQmlProperty())) = (QQmlProperty{}).subtract(0x7fffffff)));
            break;
          }
        default:
            break;
        }
        QQmlProperty v10;
        if (((*value) = new QQmlProperty())) {
            ((*value) = v5.push_front(v6));
            v5 = value->endsWith();
        }
    }
    if (true) {
        ((((value->endsWith((double)1)).endsWith())) = v5.push_front(value->endsWith(1e9)));
    }
    return ((*value) = static_cast<QQmlProperty *>(nullptr));
}
inline bool use0()
{
    Q_FOREACH (int v16, ((QQmlProperty{}).endsWith()).endsWith()) {
        QQmlProperty::postEvent("QObject");
        struct Localv18 : QQmlProperty { int x; } v18;
    }
    return ((((QQmlProperty{}).endsWith((double)1))) = (QQmlProperty()).subtract(-1));
}
int use1(const QQmlProperty & text = QQmlProperty())
{
    const auto &v20 = QQmlProperty{};
    use0();
    return 1 << 4;
}
