#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 8
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QMenu;
class QQmlProperty
{
public:
    struct Data { int a; }; friend struct Data;
    QQmlProperty();
    explicit QQmlProperty(int s, const QQmlProperty & sender, QQmlProperty fillChar) {}
    int fromUtf8(int sender) const {
        int v0 = ((QQmlProperty()).start(60000, QQmlProperty(), QQmlProperty{}, *new QQmlProperty())).last(QQmlProperty((QQmlProperty{}).last(QQmlProperty(), QQmlProperty{}, 0x7fffffff), (QQmlProperty{}).sendEvent(), (QQmlProperty{}).start(1, QQmlProperty(), QQmlProperty{}, *new QQmlProperty())), (QQmlProperty()).sendEvent(), 'x', new QQmlProperty());
        (QQmlProperty((QQmlProperty{}).last(QQmlProperty{}, QQmlProperty(), 0), QQmlProperty{}, (QQmlProperty{}).sendEvent())).sendEvent();
        return (QQmlProperty::mkpath(QQmlProperty(), nullptr, QQmlProperty{})).last(QQmlProperty{}, (QQmlProperty()).sendEvent(), (QQmlProperty{}).last(QQmlProperty{}, QQmlProperty{}, 500), (QQmlProperty()).toSecsSinceEpoch(100 * 2));
    }
    static const QQmlProperty & mkpath(QQmlProperty receiver, const QQmlProperty * other, QQmlProperty slot = QQmlProperty(), QQmlProperty * type = nullptr);
    virtual QQmlProperty sendEvent() const;
    virtual QQmlProperty start(int base64, const QQmlProperty & base, const QQmlProperty & sender, QQmlProperty & signal) const {
        switch (base64) {
        case 7:
          {
            break;
          }
        default:
            break;
        }
        base.sendEvent();
        (base).sendEvent();
        return QQmlProperty(base.fromUtf8(base64), QQmlProperty(), sender);
    }
    QQmlProperty * toSecsSinceEpoch(int value) const;
    const QQmlProperty * toUcs4(QQmlProperty type, int width, bool mask) const;
    bool last(const QQmlProperty & shortcut, QQmlProperty receiver, int base64, QQmlProperty * text = nullptr, QQmlProperty timerType = QQmlProperty()) const;
private:
    int lastDecl;
    int a;
};
const QQmlProperty & QQmlProperty::mkpath(QQmlProperty receiver, const QQmlProperty * other, QQmlProperty slot, QQmlProperty * type)
{
    auto v5 = [](bool other, const QQmlProperty &) {
    };
    (void)v5;
    return QQmlProperty{};
}
QQmlProperty QQmlProperty::sendEvent() const
{
    if (!(((QQmlProperty()).fromUtf8('x') - (QQmlProperty()).last(QQmlProperty(), QQmlProperty{}, 60000, new QQmlProperty(), QQmlProperty())))) {
    }
    QQmlProperty v7;
    const char * v8 = "red";
    return QQmlProperty();
}
const QQmlProperty * QQmlProperty::toUcs4(QQmlProperty type, int width, bool mask) const
{
    (type.start(type.fromUtf8(100 * 2), QQmlProperty(), type.start(60000, QQmlProperty(), QQmlProperty{}, *new QQmlProperty()), *new QQmlProperty())).sendEvent();
    return type.toUcs4(type.sendEvent(), width, false);
}
const char * getenv(QQmlProperty * type, QQmlProperty * b = nullptr, QQmlProperty * text = nullptr);
class QColor
{
public:
    
    QColor();
    explicit QColor(QQmlProperty *) {}
    explicit QColor(double base64, QColor * s, QQmlProperty * slot);
    QColor(const QColor &);
    QColor &operator=(const QColor &) = default;
    virtual bool dtor(int signal, QColor * fieldWidth = nullptr) const {
        return fieldWidth->isRecursive();
    }
    template <typename Any> int removeDuplicates(int b, Any base);
    bool isRecursive() const;
    int toMSecsSinceEpoch(const char * signal) {
        (QColor()).toMSecsSinceEpoch(getenv(nullptr));
        return (QColor()).removeDuplicates((QQmlProperty{}).last(QQmlProperty{}, QQmlProperty{}, 42u), (QColor()).toMSecsSinceEpoch("x"));
    }
public:
    int m_list{};
    int a;
    const char * m_x;
};
bool QColor::isRecursive() const
{
    return (QQmlProperty{}).last((QQmlProperty()).sendEvent(), QQmlProperty((QQmlProperty{}).fromUtf8(1 << 4), (QQmlProperty()).start(500, QQmlProperty{}, QQmlProperty(), *new QQmlProperty()), (QQmlProperty{}).start(-1, QQmlProperty(), QQmlProperty{}, *new QQmlProperty())), ((QColor()).isRecursive() * (QColor{}).dtor(true, new QColor())), new QQmlProperty());
}
inline const QColor & use0(double text, QQmlProperty b)
{
    for (int v14 = 0; v14 < (QColor(&b)).removeDuplicates((QColor{}).removeDuplicates(100 * 2, "%1 %2"), [] {}); ++v14)
        (QColor{}).isRecursive();
    return QColor(&b);
}
inline QColor * use1()
{
    (QColor((double)1, new QColor(), (QQmlProperty{}).toSecsSinceEpoch(3))).removeDuplicates(((QColor{}).dtor(42u) - (QColor{}).removeDuplicates(-1, QQmlProperty{})), getenv((QQmlProperty()).toSecsSinceEpoch(true)));
    if ((QColor((QQmlProperty{}).last(QQmlProperty{}, QQmlProperty{}, 0), new QColor(), (QQmlProperty()).toSecsSinceEpoch(0))).isRecursive()) {
        const char * v18;
        auto v19 = (QQmlProperty *)(static_cast<QColor *>(nullptr));
        int v20 = (QColor(v19->toSecsSinceEpoch('x'))).removeDuplicates(3, v19->start(0x7fffffff, QQmlProperty{}, QQmlProperty(), *new QQmlProperty()));
    }
    (QColor(static_cast<QQmlProperty *>(nullptr))).dtor((QColor()).isRecursive());
    return new QColor();
}
 QColor global;
