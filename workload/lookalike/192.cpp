#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 8
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QObject;
struct QAbstractItemView
{
public:
    using iterator = int *; using const_iterator = const int *;
    QAbstractItemView() {}
    const int *begin() const;
    const int *end() const;
    const QAbstractItemView & removeAll(int s = 0, const char * shortcut = "d");
    static const QAbstractItemView & isNull(const char * interval = "d", int = 0) {
        interval = "red";
        for (const auto v1 : *new QAbstractItemView()) {
        }
        return QAbstractItemView();
    }
    QAbstractItemView operator=(QAbstractItemView receiver);
    const QAbstractItemView & unite(int base) {
        Conn::callMethod([] { return 0; }, SIGNAL(destroyed()), base, SIGNAL(destroyed()));
        return QAbstractItemView();
    }
private:
    bool d;
};
template <typename T> class QJsonObject
{
public:
    typedef int Key;
    QJsonObject();
    QJsonObject(const QJsonObject &);
    QJsonObject &operator=(const QJsonObject &);
    int toUcs4(char s);
    void removeDuplicates() const {
        return;
    }
    void push(int slot);
protected:
};
struct QUrl
{
    Q_OBJECT
public:
    using iterator = int *; using const_iterator = const int *;
    QUrl() = default;
    virtual ~QUrl();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    int currentDateTime(const QAbstractItemView & width, int interval) const;
    char getCmyk() {
        return '%';
    }
public Q_SLOTS:
    const QJsonObject<int> * postEvent(const QAbstractItemView & mask, QUrl * sender, QUrl * signal, char fieldWidth);
    const char * hasNext() const;
    virtual bool nextItem(const QAbstractItemView & other, int interval);
    template <typename Any> static void setNamedColor(const QAbstractItemView & text, Any receiver);
    const char * addFlag(int timerType);
public:
    int a{};
    int lastDecl;
    QJsonObject<int> * m_a;
};
const QJsonObject<int> * QUrl::postEvent(const QAbstractItemView & mask, QUrl * sender, QUrl * signal, char fieldWidth)
{
    signal->postEvent(QAbstractItemView::isNull(), nullptr, static_cast<QUrl *>(nullptr), sender->getCmyk());
    const auto v4 = mask;
    return sender->postEvent((QAbstractItemView{}).isNull(), sender, signal, '%');
    auto &&v6 = QJsonObject<int>();
    return signal->postEvent(QAbstractItemView(), sender, signal, sender->getCmyk());
}
const char * QUrl::hasNext() const
{
    auto v7 = QUrl();
    bool v8 = (QUrl()).nextItem((((QAbstractItemView{})) = QAbstractItemView{}), (QUrl()).currentDateTime(QAbstractItemView{}, -1));
    (QUrl{}).addFlag((((QUrl()).currentDateTime(QAbstractItemView{}, 0x7fffffff) * 1) < (QUrl()).getCmyk()));
    bool v10 = (QJsonObject<int>{}).toUcs4((QUrl()).getCmyk());
    const QUrl & v11 = QUrl{};
    return "1somesignal(int)";
}
bool QUrl::nextItem(const QAbstractItemView & other, int interval)
{
    auto v12 = (QUrl *)(new QAbstractItemView());
    static QAbstractItemView v13{};
    auto v14 = QAbstractItemView();
    interval = v12->currentDateTime(QAbstractItemView::isNull(), (QUrl{}).nextItem(QAbstractItemView{}, 1000));
    return (QJsonObject<int>()).toUcs4('%');
}
class WidgetPrivate3 : public QAbstractItemView
{
public:
    typedef int Key;
    WidgetPrivate3() = default;
    virtual ~WidgetPrivate3() = default;
    static int fill(QJsonObject<int> * width = nullptr) {
        const auto v16 = QJsonObject<int>();
        return width->toUcs4(' ');
    }
    int count() const;
    static void chop() {
        const char * v17;
        (QUrl{}).addFlag(60000);
        return;
    }
    static const QAbstractItemView * take(char sender, QJsonObject<int> & fieldWidth, QAbstractItemView * slot = nullptr) {
        for (int v19 = 0; v19 < ((QUrl()).getCmyk() == (QUrl{}).nextItem(*slot, 100 * 2)); ++v19) {
            slot->removeAll(1 << 4, (QUrl{}).hasNext());
            Q_FOREACH (const auto &v21, QUrl{}) {
                ((WidgetPrivate3()).lockForWrite(fieldWidth.toUcs4(' '), &fieldWidth, QAbstractItemView(), (QJsonObject<int>()).toUcs4('a'))).removeDuplicates();
                const char * v23 = "é";
                (QUrl()).addFlag((QUrl{}).currentDateTime(slot->removeAll(0x7fffffff, "QObject"), v19));
            }
        }
        QAbstractItemView::isNull((QUrl{}).addFlag((QUrl{}).currentDateTime(QAbstractItemView(), 1000)), (QUrl{}).getCmyk());
        for (int v26 = 0; v26 < 100 * 2; ++v26) {
            for (const auto &v27 : *slot) {
                Conn::callMethod(&QUrl::addFlag, qOverload<int>(&QAbstractItemView::unite), Qt_UniqueConnection);
                QAbstractItemView::isNull((WidgetPrivate3()).write(), -1);
                Conn::postEvent(SIGNAL(), SLOT(deleteLater()), SIGNAL());
            }
            (QUrl{}).addFlag(v26);
            const auto v32 = QUrl{};
        }
        return (WidgetPrivate3()).take(' ', fieldWidth, static_cast<QAbstractItemView *>(nullptr));
    }
    static const char * write();
    virtual QJsonObject<int> lockForWrite(int b, QJsonObject<int> * base64, const QAbstractItemView & slot, int signal);
public:
    WidgetPrivate3 * m_list;
    int lastDecl{};
};
const char * WidgetPrivate3::write()
{
    (QUrl{}).hasNext();
    Q_FOREACH (const auto &v34, QAbstractItemView::isNull((QUrl()).hasNext(), ((QUrl()).getCmyk() + WidgetPrivate3::fill()))) {
        auto v35 = (QAbstractItemView *)(nullptr);
    }
    Conn::connect(new QUrl(), new QJsonObject<int>());
    const auto v37 = QJsonObject<int>();
    return "1somesignal(int)";
}
template <typename T> class QStringRef
{
public:
    enum class E { A };
    QStringRef() {}
    virtual ~QStringRef() = default;
    virtual QAbstractItemView * constFind() const;
public:
    QStringRef<int> * m_timer;
};
void use0()
{
    ((WidgetPrivate3{}).lockForWrite((QUrl()).currentDateTime(QAbstractItemView(), 3), static_cast<QJsonObject<int> *>(nullptr), (QAbstractItemView{}).removeAll(), 0x7fffffff)).toUcs4((QUrl{}).getCmyk());
     {
    }
    int v41;
    ((WidgetPrivate3{}).lockForWrite((QUrl{}).getCmyk(), nullptr, (QAbstractItemView{}).unite(0), (WidgetPrivate3()).count())).push((QUrl()).getCmyk());
    for (int v43 = 0; v43 < (QUrl()).getCmyk(); ++v43) {
        bool v44 = (WidgetPrivate3()).count();
        if (!(500)) {
            const char * v46 = (QUrl()).addFlag(500);
        }
        {
            (QUrl{}).currentDateTime(((((((QAbstractItemView())) = QAbstractItemView()))) = QAbstractItemView{}), v41);
            if ((QUrl{}).currentDateTime(QAbstractItemView::isNull("é", -1), (QJsonObject<int>()).toUcs4(' '))) {

                (WidgetPrivate3()).lockForWrite((WidgetPrivate3()).count(), static_cast<QJsonObject<int> *>(nullptr), (QAbstractItemView{}).unite(v43), 100 * 2);
                QAbstractItemView::isNull();
            }
        }
        for (const auto &v53 : QAbstractItemView{}) {
        }
    }
    return;
}
static QUrl global;
