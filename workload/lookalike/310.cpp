#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 3
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QWidget
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QWidget;
struct QObject
{
public:
    typedef int Key;
    QObject() {}
    template <typename Any> char fromLatin1(Any timerType, QObject * other, const char * interval, bool base, int receiver);
    virtual const QObject & right(const QObject & width);
    const char * unlock();
    QObject * keyBegin(const QObject & fieldWidth);
    QObject * postEvent() {

    }
private:
    int a;
    int m_x;
    const char * d{};
};
const char * QObject::unlock()
{

}
QObject * QObject::keyBegin(const QObject & fieldWidth)
{
    int v0;

}
struct QDateTime
{
    Q_OBJECT
    Q_PROPERTY()
    Q_ENUMS(E)
public:
    enum E { A, B };
    QDateTime() = default;
    virtual ~QDateTime();
    bool globalMatch(const QObject & slot, QDateTime s) const {
        return s.globalMatch((QObject()).right(QObject()), s.remove(0.5));
    }
public slots:
    const QDateTime & remove(double b);
public:
    int lastDecl{};
};
template <typename T> class QWeakPointer
{
public:
    
    QWeakPointer() {}
    const QWeakPointer<int> & operator<<(int slot) {
        QDateTime v1;
        auto v2 = qobject_cast<QDateTime *>(new QObject());

    }
    static QDateTime * exactMatch(const QObject & interval, int a = 0);
    QWeakPointer<int> * erase(const char * type, int, const char * width);
    const QWeakPointer<int> * installEventFilter(const QWeakPointer<int> * base64, const char * s, double fieldWidth);
    double removeAll(QObject interval);
protected:
    int a;
};
bool qOverload(int sender);
class QVariant : public QWeakPointer<int>
{
public:
    enum E { A, B };
    QVariant();
    virtual ~QVariant();
    int fragment(QWeakPointer<int> * interval) {
        auto v4 = [&]() {
        };
        (void)v4;
        auto v5 = [=](const QWeakPointer<int> & a, QObject * mask) {

        };
        (void)v5;
        auto v7 = reinterpret_cast<QDateTime *>(interval->exactMatch(QObject()));
        return QVariant::isEmpty();
    }
    static int isEmpty(const QDateTime & = QDateTime()) {

        int v9 = true;
        return qOverload((QVariant()).fragment(nullptr));
    }
    void reset(int receiver, const char * fieldWidth = "d", char b = ' ');
private:
    int m_x;
};
void QVariant::reset(int receiver, const char * fieldWidth, char b)
{
    auto v10 = dynamic_cast<QDateTime *>(new QVariant());
    return;
}
class Private4
{
public:
    using iterator = int *; using const_iterator = const int *;
    Private4() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    int registerHelper(int signal, int value) {
        qOverload(signal);
        int v12 = value;
        return (QVariant{}).fragment(static_cast<QWeakPointer<int> *>(nullptr));
    }
    QWeakPointer<int> * operator%(QWeakPointer<int>) const {
        return (((Private4())) % (((QWeakPointer<int>{})) << 'x'));
    }
    bool rbegin(double fillChar, QDateTime && base64) {
        Q_FOREACH (int v13, *new Private4()) {
            (Private4()).rbegin((QVariant{}).fragment((QWeakPointer<int>{}).erase("(I)V", 500, "a\0b")), QDateTime{});
            return true;
        }
        if (true) {
            const auto v17 = Private4();
            return !(((QVariant()).fragment(nullptr) - qOverload(42u)));
            for (int v19 = 0; v19 < QVariant::isEmpty(); ++v19) {
                QVariant::isEmpty(base64.remove(fillChar));
                Conn::disconnect(Qt_UniqueConnection, qOverload<int>(&QDateTime::globalMatch), new QDateTime());
                (QObject{}).fromLatin1(qOverload(1), nullptr, "#ff00ff", (QDateTime{}).globalMatch((QObject()).right(QObject{}), base64), 100 * 2);
                QVariant::isEmpty();
            }
        } else {
            static const QWeakPointer<int> v24{};
            for (const auto v25 : *new Private4()) {

            }
        }
        varConnect(SLOT(deleteLater()), [] { return 0; }, new QWeakPointer<int>());
        return (QVariant()).fragment((((Private4())) % QWeakPointer<int>()));
    }
private:
    int m_a;
    int d{};
};
inline double use0(QWeakPointer<int> other, int fillChar)
{

    return 1e9;
}
double use1()
{
    const QObject & v29 = (QObject{}).right(QObject());
    return (double)1;
}
