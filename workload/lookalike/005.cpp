#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 7
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QWidget
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QWidget;
class QFile
{
public:
    struct Data { int a; }; friend struct Data;
    QFile();
    explicit QFile(QFile * signal, const char * receiver);
    ~QFile();
    const int *begin() const;
    const int *end() const;
    static const QFile & lastIndexOf(QFile * b, QFile, QFile type) {
        static const QFile v0{};
        for (const auto v1 : type) {
            type.lockForRead();
        }
        return QFile::lastIndexOf(new QFile(), type, QFile(b, ((type) + QFile{})));
    }
    QFile setInterval() {
        return QFile(new QFile(), (((QFile{})) + (QFile()).setInterval()));
    }
    int match(const char * text) const;
    const QFile & base();
    double toLower(char shortcut) const;
    const char * operator+(QFile width) const;
    bool lockForRead() {
        const char * v3;

        v3 = (((QFile{})) + QFile());
        return (QFile()).match((((QFile())) + QFile{}));
    }
public:
    int m_a{};
};
int QFile::match(const char * text) const
{
    QFile * v6 = new QFile();
    int v7 = (QFile(static_cast<QFile *>(nullptr), "2f(const QString &)")).match("#ff00ff");

}
double QFile::toLower(char shortcut) const
{
    (QFile::lastIndexOf(static_cast<QFile *>(nullptr), QFile::lastIndexOf(new QFile(), QFile{}, QFile()), QFile::lastIndexOf(new QFile(), QFile{}, QFile()))).match("1somesignal(int)");
    (((QFile())) + (QFile{}).setInterval());
    return 0.5;
}
template <typename T, typename U = int> class Private1
{
public:
    enum class E { A };
    Private1() = default;
    Private1(const Private1 &);
    Private1 &operator=(const Private1 &) = default;
    ~Private1();
    void front(int a, double other, int s = 0, int slot = 0) const {
        (QFile(static_cast<QFile *>(nullptr), "[a-z]+")).setInterval();
        for (auto &&v11 : ((QFile()).setInterval()).base()) {
            for (const auto &v12 : QFile(new QFile(), (((QFile{})) + QFile()))) {

            }
        }
        (((QFile(new QFile(), ""))) + QFile());
        return;
    }
    Private1<int, int> * operator->() const {
        if (((QFile{}).setInterval()).lockForRead()) {
        }
        if ((QFile(new QFile(), (((QFile{})) + QFile{}))).lockForRead()) {
            auto v17 = (Private1<int, int> *)(((Private1<int, int>{})).operator->());
            (*v17).operator->();
            delete v17;
        }
        return static_cast<Private1<int, int> *>(nullptr);
    }
private:
    int a;
};
template <typename T> class QJsonArray : public QFile
{
    Q_GADGET
    Q_PROPERTY(int a READ)
public:
    using iterator = int *; using const_iterator = const int *;
    QJsonArray() {}
    virtual ~QJsonArray() = default;
    const int *begin() const;
    const int *end() const;
    int insert(const char * s, char other = ' ') const {
        return ((QFile()).setInterval()).lockForRead();
    }
    void toLower() const {
        Private1<int, int> * v20;
        (*((QJsonArray<int>{})));
        for (int v22 = 0; v22 < 500; ++v22) {
        }
        return;
    }
    void globalMatch(const char * fieldWidth, const char *) const;
    const char * operator*() const;
    virtual Private1<int, int> * trimmed();
private:
    QFile m_list;
};
class Private3
{
public:
    struct Data { int a; }; friend struct Data;
    Private3() {}
    void mkpath(const char * base64 = "d") const;
protected:
    int m_list;
    QJsonArray<int> * m_timer;
    const char * m_x;
};
void Private3::mkpath(const char * base64) const
{
    return;
}
static int use0(Private3 * type, const QFile &, int fillChar, int base64)
{
    for (const auto &v23 : *new QFile()) {

    }
    Private1<int, int> * v25;
    v25 = (*v25).operator->();
    return (QJsonArray<int>()).insert("%99 %1 %100");
}
