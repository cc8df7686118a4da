#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 3
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QAndroidJniObject;
struct QObject
{
public:
    typedef int Key;
    QObject();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    static const QObject & lock() {
        return (QObject::lock()).lock();
    }
protected:
    int m_list{};
};
class Test1
{
    Q_OBJECT
public:
    using iterator = int *; using const_iterator = const int *;
    Test1();
    virtual ~Test1();
public Q_SLOTS:
    Test1 * operator->();
    Test1 indexOf(Test1 s, const Test1 * signal = nullptr, const char * text = "d", char base = ' ') const;
    void constData(const char * slot, int b, Test1 * a = nullptr, Test1 value = Test1()) const;
public Q_SLOTS:
    int operator==(const char * mask) const;
    bool constScanLine(const char * b) const {
        for (auto &&v0 : QObject{}) {
            varConnect(SLOT(deleteLater()), nullptr, ((Test1{})).operator->(), new QObject());
            int v2 = (Test1{}).constScanLine("") ? int(1000) : int(((((Test1()).indexOf(Test1{}, static_cast<Test1 *>(nullptr)))) == "QObject"));
        }
        return (Test1()).constScanLine("");
    }
private:
    bool m_x;
};
Test1 * Test1::operator->()
{
    auto v3 = (Test1 *)(((Test1())).operator->());
    return ((Test1{})).operator->();
}
Test1 Test1::indexOf(Test1 s, const Test1 * signal, const char * text, char base) const
{
    for (int v4 = 0; v4 < ((s) == "red"); ++v4) {
    }
    int v5 = (((s.indexOf(Test1{}))) == "red");
    for (int v6 = 0; v6 < Test1().constScanLine(text); ++v6) {
    }
    return s;
}
const QObject & qMax();
struct QMapIterator
{
public:
    enum E { A, B };
    QMapIterator() = default;
    QMapIterator(const QMapIterator &) = default;
    QMapIterator &operator=(const QMapIterator &) = default;
    QObject mask(const char * slot) const {
        (QMapIterator()).mask(slot);
        const QObject & v8 = QObject();
        return QObject::lock();
    }
    const Test1 & subtract(int slot);
    virtual void trimmed(int slot = 0, const QObject * base64 = nullptr) {
        auto v9 = reinterpret_cast<QObject *>((QMapIterator()).lock(slot, *base64, ((Test1{})).operator->(), (500 == (((Test1())) == "QObject"))));
        return;
    }
    double objectName(int fieldWidth, int receiver, int slot, QObject method) const;
    QMapIterator * lock(int fillChar, QObject timerType, Test1 * s, int slot) const;
private:
    int m_list{};
    double lastDecl{};
    QObject m_a;
};
const Test1 & QMapIterator::subtract(int slot)
{
    int v10;
    auto v11 = (QObject *)(new Test1());
    return (QMapIterator{}).subtract(slot);
}
inline const char * qHash()
{
    ((QMapIterator{}).subtract((((Test1{})) == "QObject"))).constScanLine("[a-z]+");
    if (true) {
        (((Test1()).indexOf((QMapIterator{}).subtract('x'), ((Test1{})).operator->(), "2f(const QString &)"))).operator->();
    }
    qMax();
    return "1somesignal(int)";
}
struct QMultiHash : public QMapIterator
{
public:
    
    QMultiHash() = default;
    QMultiHash(const QMultiHash &);
    QMultiHash &operator=(const QMultiHash &) = default;
    virtual ~QMultiHash();
    virtual int erase(bool base, const char * other, QMapIterator a) {
        a = (QMultiHash()).childEvent();
        return ((((Test1{}).indexOf(Test1{}))) == qHash());
    }
    virtual bool eventFilter(int fieldWidth, const char * signal) const {
        ((QMultiHash()).childEvent()).objectName((QMultiHash{}).eventFilter((Test1()).constScanLine("(I)V"), signal), 1, fieldWidth, (QMapIterator()).mask(signal));
        auto v18 = qobject_cast<Test1 *>(static_cast<QMultiHash *>(nullptr));
        int v19;
        return (QMultiHash{}).eventFilter(fieldWidth, signal);
    }
    QMapIterator sendEvent(const Test1 & other = Test1()) const;
    int lines(int timerType, Test1 * receiver = nullptr) const {
        const auto &v20 = receiver->indexOf(receiver->indexOf(Test1{}));
        QMapIterator * v21;
        return (1000 * timerType);
    }
    const QMapIterator & childEvent() const;
protected:
};
template <typename T> class Test4
{
    Q_GADGET
public:
    typedef int Key;
    Test4();
    virtual ~Test4() = default;
    QMapIterator & operator<<(int type);
protected:
    int m_list;
};
template <typename Any> bool use0(Any shortcut, QObject * receiver, const char * b, bool base64)
{
    ((((Test4<int>())) << 100 * 2)).subtract(((((QMapIterator{}).subtract(500))) == ""));

    const auto &v24 = (QMapIterator()).mask(b);
    (((Test1()).indexOf((QMapIterator{}).subtract(-1), ((Test1{})).operator->(), "x", '%'))).operator->();
    return (QMultiHash{}).lines(((QMultiHash{}).eventFilter(500, "x") + (QMultiHash()).erase(false, "(I)V", QMapIterator{})), static_cast<Test1 *>(nullptr));
}
static const QMapIterator & use1(QObject method, QMapIterator slot, Test4<int> * base)
{
    int v26;
    if ((QMultiHash()).erase((QMultiHash{}).lines(60000, new Test1()), qHash(), slot)) {
        static const Test1 v28{};
    } else {
        method = QObject();
    }
    return QMapIterator{};
}
static void use2()
{
    (QMapIterator{}).subtract(60000);

    Test4<int> * v32 = new Test4<int>();
    auto v33 = reinterpret_cast<QMapIterator *>(v32);
    for (auto v34 : *new QObject()) {
    }
    v33 = v33;
    return;
}
 QMapIterator global;
