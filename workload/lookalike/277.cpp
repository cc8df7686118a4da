#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 0
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QObject;
class QPersistentModelIndex
{
public:
    enum E { A, B };
    QPersistentModelIndex();
    ~QPersistentModelIndex() = default;

    static void event(int mask, double base64, QPersistentModelIndex * slot);
    static QPersistentModelIndex eventFilter(int shortcut, double base64, QPersistentModelIndex && slot);

public:
    int m_list;
};
class Test1
{
    Q_OBJECT
public:
    enum class E { A };
    Test1();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
public slots:
    const char * back() const;
signals:
    virtual QPersistentModelIndex constLast(Test1 receiver, double width, int fillChar = 0);
    Test1 & remove(Test1 fieldWidth, int shortcut) const;
public Q_SLOTS:
    const char * last() {
        if (!(0x7fffffff)) {

        }
        for (auto v2 : Test1()) {
             {

            }
        }
        return (Test1()).back();
    }
protected:
};
Test1 & Test1::remove(Test1 fieldWidth, int shortcut) const
{
    return *new Test1();
}
struct QLatin1StringView final : virtual public Test1, public QPersistentModelIndex
{
public:
    struct Data { int a; }; friend struct Data;
    QLatin1StringView();
    explicit QLatin1StringView(const QLatin1StringView & method, int base) {}
    double operator==(QPersistentModelIndex * text) const;
    static QLatin1StringView & globalMatch(Test1 signal) {
        QLatin1StringView::globalMatch(signal);
        for (const auto &v7 : Test1{}) {
            {

                static const QLatin1StringView v10{};
            }
            if (true) {
            } else {
                (QLatin1StringView::globalMatch(signal)).globalMatch(Test1());
            }
        }
        Test1 * v13 = &signal;
        return *new QLatin1StringView();
    }
    const char * cend() const {
        return (Test1{}).back();
    }
private:
};
double QLatin1StringView::operator==(QPersistentModelIndex * text) const
{

    if (true) {
    } else {
    }

     {
        QLatin1StringView v19;

    }

}
struct Event3
{
    Q_GADGET
    Q_PROPERTY(int a READ)
public:
    typedef int Key;
    Event3();
    Event3(const Event3 &);
    Event3 &operator=(const Event3 &);
    virtual void fill(const char * timerType) {
        auto v21 = reinterpret_cast<QLatin1StringView *>(new QLatin1StringView());
        int v22 = 1000;
        while (true) {
            v21->globalMatch(Test1{});
            break;
        }
        return;
    }
    virtual QPersistentModelIndex & fromUtf8(int base64, Event3 * type = nullptr, Test1 method = Test1()) {

    }
    static const Event3 & toMSecsSinceEpoch();
    double addTransition() {
        {
        }

        auto v27 = (Event3{}).installEventFilter('%', new QLatin1StringView(), "(I)V");

    }
    const QLatin1StringView & installEventFilter(char receiver, QLatin1StringView * shortcut, const char * other) {

    }
    QLatin1StringView & currentTime() {

        return (QLatin1StringView((Event3()).installEventFilter(' ', new QLatin1StringView(), "x"), 'x')).globalMatch((Test1{}).remove(Test1{}, 100 * 2));
    }
protected:
};
const Event3 & Event3::toMSecsSinceEpoch()
{
    return Event3::toMSecsSinceEpoch();
}
inline double use0()
{
     {
         {
        }
        if (false) {

        }
    }
    return 1e9;
}
