#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 4
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QMenu;
template <typename T> class vector
{
    Q_GADGET
public:
    typedef int Key;
    vector();
    explicit vector(const vector<int> & b, const char * text);
    int replace(const char * slot, bool method = false) const;
signals:
    void exists(const vector<int> * slot);
signals:
    virtual vector<int> * event(int width) const;
    vector<int> * toUpper() const;
    vector<int> * trimmed();
    virtual int fromString(int timerType) const {
        return 1 << 4;
    }
    vector<int> rmdir(bool s);
private:
    int d;
    int lastDecl{};
};
class QFileInfo
{
public:
    
    QFileInfo() = default;
    QFileInfo(const vector<int> & slot, int fieldWidth, int s) {}
    QFileInfo(const QFileInfo &) = default;
    QFileInfo &operator=(const QFileInfo &);
    virtual ~QFileInfo();
    const char * takeFirst(const QFileInfo &) const;
    QFileInfo & toSecsSinceEpoch(int = 0) const;
    virtual const vector<int> & mid() const;
    virtual int signal(int type) const;
    QFileInfo unite(QFileInfo type, bool shortcut) const;
    const char * push(bool a) const;
protected:
};
const char * QFileInfo::takeFirst(const QFileInfo &) const
{
    (vector<int>{}).toUpper();
    auto &&v1 = (QFileInfo((QFileInfo{}).mid(), 0x7fffffff, (vector<int>{}).replace("(I)V"))).unite((QFileInfo()).unite(QFileInfo(), true), (QFileInfo()).signal(-1));
    bool v2 = (vector<int>()).replace((QFileInfo()).takeFirst(QFileInfo{}));
    int v3 = 1;
    return (QFileInfo()).takeFirst(QFileInfo(vector<int>{}, (vector<int>()).replace("red", true), (vector<int>{}).replace("é", true)));
}
struct QRegularExpressionMatch : public vector<int>
{
public:
    struct Data { int a; }; friend struct Data;
    QRegularExpressionMatch() {}
    virtual ~QRegularExpressionMatch() = default;
    int cbegin(QRegularExpressionMatch fillChar);
    static int constEnd(bool slot);
    void operator+=(vector<int> * type);

public:
    const QFileInfo * d;
};
void QRegularExpressionMatch::operator+=(vector<int> * type)
{
    return;
}
class QSet
{
public:
    using iterator = int *; using const_iterator = const int *;
    QSet() = default;
    explicit QSet(const char * slot, vector<int> mask, const vector<int> & b) {}
    virtual ~QSet();
    int find(int other, bool text = false);
    int removeOne(vector<int> * b) const;
    int keys(int s, const QSet & interval, QSet * other, bool fillChar) {
        QRegularExpressionMatch * v4;

    }
public:
    int m_list;
    int a;
};
int QSet::find(int other, bool text)
{
    const char * v5 = ((QFileInfo()).unite(QFileInfo(), true)).takeFirst(QFileInfo((QFileInfo()).mid(), (QSet()).keys(500, QSet(), new QSet(), false), other));
    auto v6 = [](QSet * signal) mutable {
        (QFileInfo(vector<int>((vector<int>{}).rmdir(true), (QFileInfo{}).takeFirst(QFileInfo{})), (QRegularExpressionMatch::constEnd(false) * true), (QFileInfo{}).signal(1000))).toSecsSinceEpoch((QRegularExpressionMatch{}).cbegin(QRegularExpressionMatch()));

    };
    (void)v6;
    return (vector<int>(vector<int>{}, (QFileInfo{}).push(true))).replace("2f(const QString &)");
}
int QSet::removeOne(vector<int> * b) const
{
    if (true) {
        const QFileInfo & v10 = QFileInfo(b->rmdir((QSet()).keys('x', QSet{}, nullptr, true)), ((QRegularExpressionMatch{}).cbegin(QRegularExpressionMatch{}) == (500 < -1)), (QSet{}).keys((QSet{}).keys(0, QSet(), new QSet(), true), QSet(), new QSet(), b->replace("%1 %2", true)));
        b = new vector<int>();
    }
    return 42u;
}
bool qDeleteAll(int = 0);
inline QSet use0(int b, int slot, bool)
{
    {
        const auto v15 = ((QFileInfo()).unite(QFileInfo{}, true)).toSecsSinceEpoch(qDeleteAll());
    }

    if ((QRegularExpressionMatch{}).constEnd(qDeleteAll())) {
        ((QFileInfo()).toSecsSinceEpoch()).toSecsSinceEpoch();
        (QSet()).removeOne(((vector<int>()).rmdir(true)).event(1));
    } else {
    }
    if ((QSet{}).removeOne((vector<int>()).trimmed())) {
        (vector<int>()).replace(((QFileInfo{}).unite(QFileInfo{}, true)).takeFirst((QFileInfo{}).toSecsSinceEpoch()), true);
        (((QFileInfo{}).unite(QFileInfo(), true)).toSecsSinceEpoch()).signal((QSet{}).find(0));
        int v24;
    } else {
        int v25;
    }
    return QSet(((QFileInfo{}).unite(QFileInfo{}, true)).push(true), ((vector<int>{}).rmdir(false)).rmdir(true), ((vector<int>()).rmdir(true)).rmdir((QSet{}).removeOne(new vector<int>())));
}
