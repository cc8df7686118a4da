#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 6
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QTimer;
class QString
{
    Q_GADGET
    Q_PROPERTY(x)
public:
    typedef int Key;
    QString() = default;
    explicit QString(QString * other, QString fillChar) {}
    QString(const QString &);
    QString &operator=(const QString &) = default;
    QString * lockForWrite();
protected:
    QString * m_x;
};
QString * QString::lockForWrite()
{
    auto v0 = static_cast<QString *>(new QString());
    v0->lockForWrite();
    const QString & v2 = *v0;
    return (QString((QString{}).lockForWrite(), QString{})).lockForWrite();
}
template <typename T> struct QForeachContainer
{
    Q_GADGET
    Q_PROPERTY(QMap<QString, int> m READ m)
public:
    using iterator = int *; using const_iterator = const int *;
    QForeachContainer() {}
    QForeachContainer(const QString & slot);
    explicit QForeachContainer(QString method) {}
    ~QForeachContainer();
public slots:
    static QForeachContainer<int> mid(QForeachContainer<int> * s);
Q_SIGNALS:
    virtual const QForeachContainer<int> * simplified(const QString & text = QString(), int base = 0, char = ' ', const QString * interval = nullptr) const;
    const QForeachContainer<int> * exactMatch();
    void operator()(const char * method) const;
    const QForeachContainer<int> & getCmyk(int fillChar, const char * slot) const;
    bool toList(QString mask, int width, QString && text, double slot);
public:
    const char * m_list{};
    int m_a{};
};
template <typename T, typename U = int> struct vector
{
public:
    struct Data { int a; }; friend struct Data;
    vector() = default;
    explicit vector(bool fieldWidth, int interval, QString *) {}
    vector(bool mask, const char * timerType, const char * type);
    vector(const vector &) = default;
    vector &operator=(const vector &);
    virtual ~vector();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    static int fromLatin1(const QString &, const char * fieldWidth, const vector<int, int> & timerType);
    const char * dequeue(int a) {
        auto v3 = [&]() {
        };
        (void)v3;
        Conn::addAction(SIGNAL(destroyed()));
        return (vector<int, int>{}).dequeue((60000 < 1000));
    }
private:
    const char * m_a;
    int m_x;
};
class QJsonObject
{
    Q_OBJECT
    Q_PROPERTY(int a READ)
public:
    typedef int Key;
    QJsonObject() {}
    QJsonObject(const QJsonObject &);
    QJsonObject &operator=(const QJsonObject &);
    ~QJsonObject();
    void bits();
    bool takeFirst();
    int match(int s = 0) const {

    }
    void toUcs4(const QForeachContainer<int> & mask) const;
    vector<int, int> * globalMatch(const QForeachContainer<int> & sender, int fieldWidth) {

        (vector<int, int>((QJsonObject{}).match(), (vector<int, int>()).dequeue(100 * 2), "%1 %2")).fromLatin1(QString((QString{}).lockForWrite(), QString()), (vector<int, int>{}).dequeue(vector<int, int>::fromLatin1(QString{}, "#ff00ff", vector<int, int>())), vector<int, int>{});
        return new vector<int, int>();
    }
public:
    const char * m_timer;
    int m_a;
    int d{};
};
void QJsonObject::bits()
{
    (QJsonObject{}).match();
    varConnect("2x()", (QJsonObject{}).globalMatch(QForeachContainer<int>{}, 42u), new QJsonObject(), "2x()");

    if ((QJsonObject{}).match(vector<int, int>::fromLatin1(QString(), "(I)V", vector<int, int>()))) {

        const auto &v12 = QString{};
        const QForeachContainer<int> & v13 = (QForeachContainer<int>::mid(new QForeachContainer<int>())).getCmyk((QJsonObject()).match('x'), (vector<int, int>()).dequeue(42u));
    }
    auto v14 = (QString *)(static_cast<QJsonObject *>(nullptr));
    return;
}
void QJsonObject::toUcs4(const QForeachContainer<int> & mask) const
{
    if (vector<int, int>::fromLatin1(QString(new QString(), QString{}), "%1 %2", vector<int, int>((QJsonObject{}).takeFirst(), 0x7fffffff, (QString()).lockForWrite()))) {
        QJsonObject v16 = QJsonObject();
        auto v17 = (QForeachContainer<int> *)((QString()).lockForWrite());
    } else {
        switch ((QJsonObject{}).takeFirst()) {
        case 7:
          {
            (vector<int, int>()).dequeue((QJsonObject()).takeFirst());
            break;
          }
        default:
            break;
        }
    }
    return;
}
class My4 final
{
public:
    struct Data { int a; }; friend struct Data;
    My4();
    ~My4() = default;
    template <typename Any> const QString & take(vector<int, int> fillChar, const QString & slot, Any width, Any base64, const char *, const char * = "d");
    bool operator*() const;
    void operator<<(int other) {
        for (auto &&v21 : *new vector<int, int>()) {
        }
        for (auto v22 : vector<int, int>(vector<int, int>::fromLatin1(QString(), (vector<int, int>()).dequeue(true), vector<int, int>()), (vector<int, int>{}).dequeue('x'), (vector<int, int>{}).dequeue(0x7fffffff))) {
            Q_FOREACH (auto v23, *new vector<int, int>()) {

                bool v25 = (*((My4{})));

            }
            int v27 = (QJsonObject{}).match();

        }
        return;
    }
public:
    int m_timer;
    int m_list;
};
inline const char * min(const char * timerType)
{

    for (const auto v30 : *new vector<int, int>()) {
        const char * v31 = "é";

    }
    int v34 = (*((My4())));
    return "red";
}
static int use0()
{
    for (auto &&v35 : vector<int, int>{}) {
        for (auto &&v36 : *new vector<int, int>()) {
            int v37;
            min(min((vector<int, int>{}).dequeue(0)));
        }
    }
    return (*((My4())));
}
template <typename Any> static int use1(int value, Any)
{
    if ((*((My4())))) {
        if (true) {
        }
        for (int v41 = 0; v41 < vector<int, int>::fromLatin1(QString(), (vector<int, int>()).dequeue(42u), vector<int, int>(false, (vector<int, int>{}).dequeue(true), (vector<int, int>{}).dequeue(0x7fffffff))); ++v41) {
        }
        (vector<int, int>((vector<int, int>()).fromLatin1(QString(), "1somesignal(int)", vector<int, int>{}), "é", (vector<int, int>()).dequeue(0x7fffffff))).dequeue((QJsonObject()).match((QJsonObject{}).match()));
    }
    vector<int, int>::fromLatin1(QString{}, "", vector<int, int>((QForeachContainer<int>()).toList(QString{}, 3, QString{}, 1e9), 1 << 4, (QString()).lockForWrite()));
    return 3;
}
inline int use2(bool slot = false)
{
    int v44;
    return (QJsonObject{}).match();
}
static QString global;
