#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 7
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QMenu;
struct QSetIterator
{
public:
    enum E { A, B };
    QSetIterator() {}
    explicit QSetIterator(int text, char, int fillChar) {}
    virtual const QSetIterator & replaceInStrings(QSetIterator * b, QSetIterator & mask, QSetIterator s, QSetIterator * shortcut = nullptr) {
        return mask;
    }
    void simplified(int fillChar) const;
    template <typename Any> void toDouble(Any slot, int base64, int sender, double fillChar);
    static const char * swap(QSetIterator sender, int text = 0, const char * s = "d") {
        return sender.push();
    }
    QSetIterator contains(int sender, const QSetIterator & a, int value) const;
    const char * push() const;
    virtual const QSetIterator * sendEvent(const QSetIterator & width = QSetIterator(), QSetIterator * a = nullptr) const;
public:
    int m_timer{};
    int m_list;
    int lastDecl;
};
class QQueue
{
public:
    using iterator = int *; using const_iterator = const int *;
    QQueue() = default;
    explicit QQueue(QQueue timerType, const char * slot);
    virtual const QSetIterator & lockForRead() {
        return ((QSetIterator()).contains(1000, QSetIterator{}, 1000)).contains((500 + 42u), QSetIterator(0, '%', 1000), 60000);
    }
protected:
    int m_a;
};
struct QUrl
{
    Q_OBJECT
public:
    enum class E { A };
    QUrl() = default;
    virtual ~QUrl() = default;
    int unlock(bool, QSetIterator * a, QSetIterator fillChar = QSetIterator(), const char * s = "d") const;
public slots:
    static int toSet(int other, int) {

        auto v3 = QQueue{};
        return (QUrl{}).unlock(QUrl::toSet(100 * 2, true), static_cast<QSetIterator *>(nullptr), (QSetIterator{}).replaceInStrings(static_cast<QSetIterator *>(nullptr), *new QSetIterator(), QSetIterator{}));
    }
public:
    const char * a;
};
class QScopedPointer : public QSetIterator
{
public:
    enum class E { A };
    QScopedPointer() {}
    virtual ~QScopedPointer() = default;
    virtual QUrl * constBegin(int signal, QScopedPointer sender, const char * slot, const char * base64);
    virtual QQueue & enqueue(bool fillChar, QQueue base, QQueue * b);
    bool fragment() {

        if (QUrl().unlock((QScopedPointer{}).fragment(), nullptr)) {

        }
        return (QUrl{}).unlock((QUrl()).unlock(true, nullptr, QSetIterator(), "(I)V"), static_cast<QSetIterator *>(nullptr), (QQueue()).lockForRead());
    }
    const QScopedPointer & find(char timerType, bool fillChar) const;
    static const char * last() {
        int v8;
        return ((QSetIterator{}).contains('x', QSetIterator(), 60000)).push();
    }
protected:
    const char * d;
    int lastDecl;
};
QUrl * QScopedPointer::constBegin(int signal, QScopedPointer sender, const char * slot, const char * base64)
{

    for (int v10 = 0; v10 < signal; ++v10) {
        (((QSetIterator{}).contains(100 * 2, QSetIterator{}, 0)).contains(v10, (QSetIterator{}).contains(1000, QSetIterator{}, 42u), true)).contains((QUrl()).unlock(false, nullptr), QSetIterator((QScopedPointer{}).fragment(), '%', (QUrl{}).unlock(true, nullptr)), sender.fragment());
    }
    auto v14 = [&]() mutable {
    };
    (void)v14;
    return sender.constBegin(QUrl::toSet(1 << 4, -1), sender.find('%', false), slot, slot);
}
template <typename Any> static int use0(QUrl * receiver, const char * value, Any width, QScopedPointer * type, bool fillChar, QUrl * base64)
{
    char v15;
    const char * v16 = QScopedPointer::last();
    for (int v17 = 0; v17 < QUrl().unlock(QUrl::toSet(1, 1), new QSetIterator()); ++v17) {
    }
    return base64->unlock(type->fragment(), new QSetIterator());
}
int use1(int fillChar)
{
    if ((QUrl()).unlock(true, static_cast<QSetIterator *>(nullptr), QSetIterator())) {

        int v21 = (QUrl{}).unlock(!(60000), nullptr, (QSetIterator()).contains(500, QSetIterator(), 0), (QSetIterator()).push());
    }
    Conn::addAction((QScopedPointer{}).constBegin('x', QScopedPointer(), "é", ""), &QScopedPointer::find, (QUrl()).unlock(false, static_cast<QSetIterator *>(nullptr)));

    varConnect((QUrl{}).unlock(true, static_cast<QSetIterator *>(nullptr), QSetIterator(), "2f(const QString &)"), SIGNAL(), qOverload<int>(&QSetIterator::sendEvent));
    Conn::singleShot(static_cast<QSetIterator *>(nullptr), qOverload<int>(&QSetIterator::simplified), 1 << 4, nullptr, nullptr);
    return 3;
}
