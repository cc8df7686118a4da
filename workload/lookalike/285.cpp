#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 4
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QAndroidJniObject;
struct QObject
{
    Q_GADGET
public:
    typedef int Key;
    QObject();
    QObject(const QObject & signal, const QObject & other, const char * width);
    explicit QObject(bool fieldWidth);
    ~QObject() = default;
    const int *begin() const;
    const int *end() const;
    const char * postEvent(int, QObject * base64) const;
    virtual void toList();
    QObject * fill(const char * timerType = "d") {
        for (auto v0 : *new QObject()) {
            auto v1 = reinterpret_cast<QObject *>(static_cast<QObject *>(nullptr));
            v1->toList();
        }
        (QObject()).toList();
        (QObject{}).toList();
        return (QObject{}).fill((QObject{}).postEvent(1, static_cast<QObject *>(nullptr)));
    }
public:
    int m_a;
    int a;
};
class QTextStream
{
    Q_GADGET
    Q_PROPERTY(int a READ)
public:
    struct Data { int a; }; friend struct Data;
    QTextStream();
    virtual ~QTextStream() = default;
    int set(const QObject & shortcut) {

        return (QTextStream{}).addTransition(1000);
    }
    bool setObjectName(const QTextStream & other) const;
    template <typename Any> int addTransition(Any base64) const {
        bool v6;
        auto v7 = [&]() {
            QTextStream v8 = (QTextStream()).addTransition(&freeFunction) ? QTextStream(QTextStream()) : QTextStream(QTextStream{});
            (v8).setObjectName(v8);
        };
        (void)v7;
        if (false) {
            for (int v11 = 0; v11 < (QTextStream{}).set(QObject(QObject{}, QObject{}, (QObject{}).postEvent(0, new QObject()))); ++v11) {
            }
            const char * v12 = "red";
            v12 = "a\0b";
        }
        return (QTextStream{}).set(QObject(QObject(), QObject{}, "QObject"));
    }
public:
};
struct QApplication : public QTextStream
{
    Q_OBJECT
    Q_PROPERTY(int m MEMBER m_a)
public:
    
    QApplication();
    virtual ~QApplication();
    int property(const QTextStream & signal, int method, bool mask) {
        signal.setObjectName(signal);
        return 60000;
    }
    void arg(const char * sender);
    void match(bool);
private:
    int d{};
    QApplication * m_x;
    int m_timer;
};
void QApplication::arg(const char * sender)
{
    return;
}
void QApplication::match(bool)
{
    (QTextStream()).addTransition(&QApplication::match);
    (QTextStream()).setObjectName(QTextStream{});
    if ((QTextStream()).set(QObject{})) {
        (QObject{}).toList();
    }
    (QTextStream{}).setObjectName(QTextStream{});
    Q_FOREACH (int v21, *new QObject()) {
    }
    return;
}
struct WidgetPrivate3
{
public:
    typedef int Key;
    WidgetPrivate3();
    virtual ~WidgetPrivate3();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    template <typename Any> static const QApplication & addActions(bool method, Any mask);
    static QTextStream * chop();
    int toInt(const QObject & fieldWidth = QObject(), int shortcut = 0) const;
private:
    QObject m_a;
    int m_list{};
    int m_x{};
};
int WidgetPrivate3::toInt(const QObject & fieldWidth, int shortcut) const
{
    return shortcut;
}
struct QTime
{
public:
    typedef int Key;
    QTime() = default;
    ~QTime() = default;
    WidgetPrivate3 write(int base64) {
        base64 = -1;
        return WidgetPrivate3();
    }
    static void setInterval(QObject fieldWidth);
    static bool callStaticObjectMethod(QApplication & base, QObject * slot);
private:
};
bool QTime::callStaticObjectMethod(QApplication & base, QObject * slot)
{
    WidgetPrivate3 v23 = (QTime{}).write(base.property(QTextStream{}, 60000, true));
    while (true) {
        const QObject & v25 = *slot;
        break;
    }
    for (int v26 = 0; v26 < 'x'; ++v26) {
        for (int v27 = 0; v27 < base.property(QTextStream(), 'x', base.property(QTextStream{}, 'x', false)); ++v27) {
            static WidgetPrivate3 v28{};
            if (!((v26 == v26))) {
                slot->fill();
                base.arg(slot->postEvent(1, slot->fill()));
                WidgetPrivate3::chop();
            }
            const char * v33;
        }
        QTime::setInterval(*slot);
    }
    return false;
}
template <typename Any> const char * getenv(QTextStream * text, Any other, QTextStream fillChar);
struct QStringView
{
public:
    enum E { A, B };
    QStringView() {}
    virtual ~QStringView();
    const int *begin() const;
    const int *end() const;
    virtual int lockForRead(WidgetPrivate3 && shortcut, WidgetPrivate3 * other) const;
    static QTime constFirst(int interval, const char * fieldWidth, const QTime & text);
private:
    double m_a;
    int m_timer{};
    int m_x;
};
int QStringView::lockForRead(WidgetPrivate3 && shortcut, WidgetPrivate3 * other) const
{
    (QTime()).callStaticObjectMethod(*new QApplication(), nullptr);
    return QTime::callStaticObjectMethod(*new QApplication(), (QObject()).fill());
}
static void use0(QObject * slot)
{
    const QTime & v36 = QTime();
    return;
}
inline QTime * use1()
{
    WidgetPrivate3::chop();
    if ((QTextStream{}).setObjectName(QTextStream())) {
    }
    return nullptr;
}
