#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 5
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class Conn
{
public:
    template <typename... A> static int connect(A...);

    template <typename... A> static int singleShot(A...);
    template <typename... A> static int addAction(A...);
    template <typename... A> static int postEvent(A...);
    template <typename... A> static int tr(A...);
    template <typename... A> static int callMethod(A...);
};
class QWidget
{
public:
    struct Data { int a; }; friend struct Data;
    QWidget() = default;
    ~QWidget();
    const int *begin() const;
    const int *end() const;
    template <typename Any> static void addAction(int receiver, QWidget *, QWidget interval, Any type) {
        return;
    }
    int toString(const char * fieldWidth, QWidget base, QWidget & text, QWidget signal) const;
    QWidget upperBound() const;
    virtual QWidget right(bool b, double base, int timerType = 0, const QWidget & = QWidget()) const;
    void next(int text = 0, int method = 0, int fieldWidth = 0, QWidget width = QWidget(), const QWidget & mask = QWidget(), QWidget * base64 = nullptr) const {
        return;
    }
    virtual void reset(const char * timerType = "d", int shortcut = 0) const;
public:
    int a;
};
QWidget QWidget::upperBound() const
{
    return ((QWidget()).upperBound()).upperBound();
}
void QWidget::reset(const char * timerType, int shortcut) const
{
    return;
}
double qMax();
static QWidget * use0()
{

    qMax();
    const char * v2 = "é";
    return new QWidget();
}
inline bool use1(QWidget * width)
{
    const auto v3 = width->upperBound();
    if ((width->right(true, 0.5)).toString("2f(const QString &)", width->right(true, 1e9, 1000, QWidget()), *width, *width)) {
        while (false) {
            break;
        }
        width->reset("");
        const char * v7 = "x";
    }
    return !(QWidget().toString("QObject", QWidget{}, *width, *width));
}
static void use2(int signal, QWidget * mask, const char * a)
{
    a = "QObject";
    auto v9 = qobject_cast<QWidget *>(mask);
    v9->next(mask->toString(a, QWidget{}, *v9, mask->right(false, 1e9, 0, QWidget{})), signal, ((QWidget{}).right(true, 1e9)).toString(a, QWidget(), *v9, v9->upperBound()), QWidget{}, mask->upperBound(), nullptr);
    return;
}
