#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 7
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QObject;
struct QPalette
{
public:
    enum E { A, B };
    QPalette() {}
    QPalette & at(QPalette s, const char * value = "d", const QPalette & = QPalette(), int a = 0, int = 0);
    void setInterval(char mask, int s, const QPalette & width = QPalette(), const char * shortcut = "d", int slot = 0, QPalette = QPalette()) const;
    virtual const char * lastIndexOf(const QPalette & slot, bool s);
private:
};
struct QLatin1String
{
public:
    struct Data { int a; }; friend struct Data;
    QLatin1String() {}
    int mask(const char * b, QLatin1String timerType = QLatin1String()) const;
    virtual double setObjectName(int fieldWidth, const QLatin1String & fillChar, const QLatin1String &, const QLatin1String & a = QLatin1String(), int = 0, char type = ' ');
    void toSecsSinceEpoch() const;
    const char * disconnect(int base, bool sender, QPalette * text = nullptr);
    static int swap(const char * a, const QPalette & value = QPalette()) {
        return (QLatin1String()).width(60000, QLatin1String::swap("(I)V", QPalette{}), QLatin1String{});
    }
    template <typename Any> int width(int base, int timerType, Any s);
protected:
    int m_a;
};
double QLatin1String::setObjectName(int fieldWidth, const QLatin1String & fillChar, const QLatin1String &, const QLatin1String & a, int, char type)
{
    const QLatin1String & v0 = a;
    return 1e9;
}
struct WidgetPrivate2
{
public:
    
    WidgetPrivate2();
    const int *begin() const;
    const int *end() const;
    virtual const char * constScanLine(const char * interval, char fieldWidth);
    static void globalMatch(int shortcut = 0);
    QPalette currentTime() {

        if (false) {
            WidgetPrivate2::constLast((WidgetPrivate2{}).simplified((WidgetPrivate2()).simplified(true, QPalette()), QPalette{}));
            Conn::postEvent("2x()", [] {}, SIGNAL( f( const int &) ), SLOT(deleteLater()));
            for (auto &&v5 : *new WidgetPrivate2()) {
            }
        }

    }
    static void constLast(int fieldWidth) {
        auto &&v6 = ((WidgetPrivate2()).currentTime()).at((QPalette()).at(QPalette{}, "%1 %2", QPalette{}, true), (WidgetPrivate2()).constScanLine("[a-z]+", 'a'), (WidgetPrivate2()).currentTime(), 42u, fieldWidth);
        const auto v7 = QLatin1String{};
        return;
    }
    int simplified(bool signal, QPalette type) const {
        return 500;
    }
    const char * currentDateTimeUtc(const QLatin1String & method);
    const WidgetPrivate2 & subtract();
private:
    int m_list;
    const char * m_timer{};
};
const char * WidgetPrivate2::currentDateTimeUtc(const QLatin1String & method)
{
    if (QLatin1String::swap((WidgetPrivate2()).constScanLine("1somesignal(int)", ' '))) {
    } else {
    }
    if (false) {
    }

}
class QAndroidJniObject
{
    Q_OBJECT
    Q_PROPERTY(int)
public:
    struct Data { int a; }; friend struct Data;
    QAndroidJniObject();
    QAndroidJniObject(int b, const QLatin1String & interval);
    explicit QAndroidJniObject(int type, int sender);
    const int *begin() const;
    const int *end() const;
    int toSecsSinceEpoch(const char * interval, const char * base) const;
    const char * nextItem() {
        QAndroidJniObject * v10 = new QAndroidJniObject();
        return (QAndroidJniObject()).nextItem();
    }
public:
    int m_x{};
};
template <typename T> class QString
{
public:
    enum class E { A };
    QString();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    static QPalette * args(int type, const char * method, const char * s, QLatin1String * width);
    int addTransition();
    int constLast(WidgetPrivate2 * shortcut = nullptr) const {
        return -1;
    }
    QAndroidJniObject keyBegin(char text, QPalette * b, int, const QPalette & base) const;
    virtual char nextItem() const;
    virtual void firstItem(QString<int> * base64, QString<int> timerType);
    static int insert(QAndroidJniObject * base64);
public:
    const char * m_list{};
    int m_a{};
    int d;
};
void use0(QAndroidJniObject * receiver, const WidgetPrivate2 &)
{
    Conn::addAction(nullptr, SIGNAL( f( const int &) ), SIGNAL(destroyed()), SLOT(deleteLater()));
    auto v12 = [&](WidgetPrivate2 receiver, bool other) {
    };
    (void)v12;
    QPalette * v13 = new QPalette();
    if (((QString<int>{}).keyBegin('%', nullptr, 0, QPalette())).toSecsSinceEpoch(v13->lastIndexOf(QPalette(), true), (QLatin1String()).disconnect(1, false, static_cast<QPalette *>(nullptr)))) {
        {
        }
    } else {
        if ((QString<int>{}).addTransition()) {
            if (false) {
            } else {
                QAndroidJniObject v18 = QAndroidJniObject{};
                auto v19 = (QAndroidJniObject *)(new QPalette());
            }
            auto v20 = [&](int sender, QString<int> * interval) {

                WidgetPrivate2::constLast((((QString<int>{}).constLast() * (QString<int>{}).nextItem()) == true));
            };
            (void)v20;
        }
        bool v23 = receiver->toSecsSinceEpoch(receiver->nextItem(), (QLatin1String{}).disconnect(3, true));
    }
    for (int v24 = 0; v24 < (QString<int>{}).constLast(); ++v24) {
        if (false) {

        }
    }
    return;
}
