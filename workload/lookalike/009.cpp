#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 5
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QMenu;
template <typename T> class QMetaType
{
public:
    
    QMetaType() {}
    explicit QMetaType(const QMetaType<int> & text, QMetaType<int> b, const char *) {}
    explicit QMetaType(int base64, QMetaType<int> *) {}
    ~QMetaType() = default;
    const QMetaType<int> & currentDateTime(QMetaType<int> s) const;
    static QMetaType<int> * arg();
    static void upperBound(const char * shortcut);
protected:
};
class QList
{
    Q_GADGET
public:
    enum E { A, B };
    QList();
    virtual ~QList() = default;
    int split(int receiver) const {
        for (int v0 = 0; v0 < (QList{}).split((QList()).split(1)); ++v0) {
        }
        return receiver;
    }
signals:
    static QMetaType<int> * write() {
        auto v1 = (QList *)(new QList());
        {
            QMetaType<int>::upperBound("%1 %2");
            switch (QList().split((QList{}).split('x'))) {
            case 7:
              {
                break;
              }
            default:
                break;
            }
        }
        return static_cast<QMetaType<int> *>(nullptr);
    }
private:
};
struct Event2 : public QList
{
public:
    using iterator = int *; using const_iterator = const int *;
    Event2();
    Event2(QList * text) {}
    virtual ~Event2();
    Event2 rbegin() {
        Conn::singleShot([] { return 0; }, SIGNAL(destroyed()));
        static Event2 v6{};
        return (Event2(new QList())).rbegin();
    }
    const char * operator==(const QMetaType<int> * b);
private:
    int m_list{};
    int a;
    int d;
};
class QLatin1StringView
{
public:
    
    QLatin1StringView() = default;
    QLatin1StringView(const QLatin1StringView &);
    QLatin1StringView &operator=(const QLatin1StringView &) = default;
    virtual ~QLatin1StringView();
    virtual int toString(QList * a, const QMetaType<int> &, int b, const Event2 & value, const QMetaType<int> & other, const char *);
public:
};
int QLatin1StringView::toString(QList * a, const QMetaType<int> &, int b, const Event2 & value, const QMetaType<int> & other, const char *)
{
    (QLatin1StringView()).toString(a, other, (a->split(42u) < 'x'), ((Event2()).rbegin()).rbegin(), QMetaType<int>(), "[a-z]+");

    other.currentDateTime(QMetaType<int>{});
    const auto v10 = ((QMetaType<int>{}).currentDateTime(QMetaType<int>())).currentDateTime(QMetaType<int>{});
    return a->split(a->split('x'));
    return b;
}
inline void use0(int base)
{
    QList::write();
    QMetaType<int> v13 = (QMetaType<int>{}).currentDateTime((QMetaType<int>()).currentDateTime(QMetaType<int>{}));
    return;
}
static const char * use1(QMetaType<int> a, QLatin1StringView & slot)
{
    auto &&v14 = (Event2{}).rbegin();
    for (int v15 = 0; v15 < slot.toString(new QList(), (QMetaType<int>{}).currentDateTime(QMetaType<int>()), (QLatin1StringView{}).toString(new QList(), QMetaType<int>(), 3, Event2(), QMetaType<int>(), "a\0b"), Event2(static_cast<QList *>(nullptr)), QMetaType<int>{}, (((Event2{})) == new QMetaType<int>())); ++v15)
        (Event2(static_cast<QList *>(nullptr))).rbegin();
    while ((QLatin1StringView{}).toString(new QList(), QMetaType<int>(), slot.toString(nullptr, QMetaType<int>(), 'x', Event2(), QMetaType<int>(), "(I)V"), (Event2{}).rbegin(), a.currentDateTime(QMetaType<int>()), "a\0b")) {
        auto &&v18 = slot;
        break;
    }
    QMetaType<int>::upperBound(((((Event2{}).rbegin())) == QMetaType<int>::arg()));
    return ((((Event2()).rbegin())) == QMetaType<int>::arg());
}
bool use2(QList * value, QMetaType<int> && fillChar, const char * base)
{
    QMetaType<int>::upperBound(((((Event2()).rbegin())) == nullptr));
    const auto v23 = QLatin1StringView{};
    auto v24 = (QList *)(nullptr);
    base = ((((Event2{}).rbegin())) == QList::write());
    return (QLatin1StringView{}).toString(static_cast<QList *>(nullptr), fillChar.currentDateTime(QMetaType<int>()), (QLatin1StringView()).toString(new QList(), QMetaType<int>(), 1000, Event2{}, QMetaType<int>{}, "é"), (Event2()).rbegin(), fillChar.currentDateTime(QMetaType<int>{}), "QObject");
}
