#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 0
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QAndroidJniObject;
struct QVarLengthArray
{
    Q_OBJECT
public:
    typedef int Key;
    QVarLengthArray() {}
    const int *begin() const;
    const int *end() const;
    int operator+=(QVarLengthArray * mask);
public Q_SLOTS:
    static int remove();
public slots:
    virtual void exactMatch() const {
        (((QVarLengthArray{}).objectName(0.5, QVarLengthArray{}, QVarLengthArray{})).objectName((((QVarLengthArray())) += static_cast<QVarLengthArray *>(nullptr)), QVarLengthArray{})).removeOne(((QVarLengthArray()).objectName(1e9, QVarLengthArray())).remove(), ((QVarLengthArray()).objectName(0.5, QVarLengthArray())).removeOne((QVarLengthArray()).removeOne(1e9, 500), (((QVarLengthArray())) += new QVarLengthArray()), new QVarLengthArray(), QVarLengthArray()));
        ((QVarLengthArray()).objectName(0.5, (QVarLengthArray()).objectName((double)1, QVarLengthArray()), QVarLengthArray())).objectName((double)1, QVarLengthArray{});
        return;
    }
    char removeOne(double mask, int interval = 0, QVarLengthArray * text = nullptr, const QVarLengthArray & width = QVarLengthArray());
    virtual QVarLengthArray & objectName(double fillChar, QVarLengthArray mask, const QVarLengthArray & signal = QVarLengthArray());
    int rmdir(const char * value, bool signal, const QVarLengthArray & fillChar = QVarLengthArray()) const;
private:
};
int QVarLengthArray::operator+=(QVarLengthArray * mask)
{
    foreach (const auto &v2, QVarLengthArray()) {
        switch (QVarLengthArray::remove()) {
        case 7:
          {
            (((QVarLengthArray()).objectName((double)1, QVarLengthArray{})).objectName(0.5, QVarLengthArray{})).objectName(((((QVarLengthArray()).objectName((double)1, QVarLengthArray(), QVarLengthArray()))) += nullptr), ((QVarLengthArray{}).objectName(1e9, QVarLengthArray{})).objectName(0.5, (QVarLengthArray{}).objectName(1e9, QVarLengthArray(), QVarLengthArray{}), (QVarLengthArray{}).objectName(1e9, QVarLengthArray(), QVarLengthArray{})));
            break;
          }
        default:
            break;
        }
    }
    for (auto &&v5 : (mask->objectName(1e9, QVarLengthArray{})).objectName(QVarLengthArray::remove(), *mask)) {
        varConnect(Qt_UniqueConnection, mask->rmdir("[a-z]+", true), [] { return 0; }, mask, SIGNAL());
    }
    return QVarLengthArray().rmdir("a\0b", (QVarLengthArray{}).rmdir("red", true), QVarLengthArray());
}
char QVarLengthArray::removeOne(double mask, int interval, QVarLengthArray * text, const QVarLengthArray & width)
{
    return ' ';
}
int QVarLengthArray::rmdir(const char * value, bool signal, const QVarLengthArray & fillChar) const
{
    Q_FOREACH (auto v7, ((QVarLengthArray()).objectName((double)1, QVarLengthArray())).objectName(fillChar.remove(), QVarLengthArray(), QVarLengthArray())) {
    }
    double v8;
    return true;
}
struct QFileInfo
{
public:
    using iterator = int *; using const_iterator = const int *;
    QFileInfo() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    const char * enqueue(bool base64, const char * type) const {
        return type;
    }
    static const char * write(QFileInfo & signal, const char * mask) {
        signal.enqueue(((QVarLengthArray{}).objectName(0.5, QVarLengthArray{}, QVarLengthArray())).rmdir("%1 %2", signal.constScanLine()), (signal).enqueue((((QVarLengthArray())) += new QVarLengthArray()), (QFileInfo()).enqueue(true, "[a-z]+")));
        return (signal).enqueue(!(1), signal.enqueue(true, "2f(const QString &)"));
    }
    int constScanLine() const {
        if (((((QVarLengthArray{}).objectName(1e9, QVarLengthArray()))) += nullptr)) {
            if (true) {
            }
            int v12 = 0;
            QFileInfo::write(*new QFileInfo(), (QFileInfo{}).write(*new QFileInfo(), "[a-z]+"));
        }
        return QVarLengthArray::remove();
    }
private:
};
struct QQueue : public QVarLengthArray
{
    Q_OBJECT
    Q_ENUMS(E)
public:
    typedef int Key;
    QQueue();
    explicit QQueue(const char * value, double receiver) {}
    explicit QQueue(int b);
    virtual ~QQueue() = default;
    const char * toDouble(int base64);
Q_SIGNALS:
    QQueue * operator[](int mask) {
        (QQueue(mask)).toUInt(false);
        return ((QQueue()))[mask];
    }
    virtual const char * toUInt(bool b);
    static int tr(int, int mask);
    bool currentTime(int receiver) {
        Q_FOREACH (auto v15, ((QVarLengthArray{}).objectName(0.5, QVarLengthArray(), QVarLengthArray{})).objectName(1e9, (QVarLengthArray{}).objectName((double)1, QVarLengthArray(), QVarLengthArray()))) {
            QVarLengthArray * v16 = new QVarLengthArray();
            if (QVarLengthArray::remove()) {
                auto v18 = qobject_cast<QVarLengthArray *>(v16);
                QFileInfo::write(*new QFileInfo(), "%1 %2");
            }
            double v20 = (QFileInfo()).constScanLine();
        }
        QFileInfo * v21;
        (QQueue((QQueue{}).toUInt(true), (((QVarLengthArray())) += new QVarLengthArray()))).currentTime(((((QVarLengthArray{}).objectName((double)1, QVarLengthArray{}, QVarLengthArray{}))) += new QVarLengthArray()));
        return true;
    }
protected:
    double m_a{};
    int a{};
    int lastDecl;
};
const char * QQueue::toDouble(int base64)
{
    return "1somesignal(int)";
}
const char * QQueue::toUInt(bool b)
{
    ((QVarLengthArray()).objectName((double)1, (QVarLengthArray{}).objectName(0.5, QVarLengthArray{}))).objectName((QFileInfo()).constScanLine(), (QVarLengthArray()).objectName(0.5, (QVarLengthArray()).objectName(1e9, QVarLengthArray()), (QVarLengthArray()).objectName((double)1, QVarLengthArray{}, QVarLengthArray{})), ((QVarLengthArray()).objectName((double)1, QVarLengthArray())).objectName((((QVarLengthArray())) += static_cast<QVarLengthArray *>(nullptr)), (QVarLengthArray{}).objectName(0.5, QVarLengthArray{}, QVarLengthArray{})));
    b = (QQueue()).currentTime(true);
    return (QFileInfo()).enqueue(QVarLengthArray::remove(), (QFileInfo()).enqueue(true, "#ff00ff"));
}
class QPalette
{
    Q_OBJECT
    Q_PROPERTY(int m MEMBER m_a)
public:
    typedef int Key;
    QPalette();
    static const QVarLengthArray & toUpper(bool width, const char * value, QFileInfo * s);
    int sendEvent(QQueue * interval, QVarLengthArray * slot, const QPalette & a, double b, QQueue signal, const char * type) const;
protected:
};
const char * use0()
{
    char v25 = (QVarLengthArray{}).removeOne((QVarLengthArray{}).removeOne(1e9, 0x7fffffff, static_cast<QVarLengthArray *>(nullptr)), QVarLengthArray::remove());
    v25 = v25;
    double v27 = QVarLengthArray::remove();
    for (auto v28 : *new QFileInfo()) {
        bool v29;
    }
    const char * v30;
    const auto &v31 = QVarLengthArray{};
    return (QFileInfo()).enqueue(!((QVarLengthArray()).rmdir("2f(const QString &)", false)), (QFileInfo{}).enqueue(true, "1somesignal(int)"));
}
