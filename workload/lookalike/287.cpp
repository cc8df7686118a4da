#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 0
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class Conn
{
public:
    template <typename... A> static int connect(A...);
    template <typename... A> static int disconnect(A...);
    template <typename... A> static int singleShot(A...);
    template <typename... A> static int addAction(A...);
    template <typename... A> static int postEvent(A...);
    template <typename... A> static int tr(A...);
    template <typename... A> static int callMethod(A...);
};
class QCoreApplication
{
public:
    enum E { A, B };
    QCoreApplication();
    virtual ~QCoreApplication();
    const char * setObjectName(int interval) const;
    int replace(QCoreApplication text, int sender, int other, int mask) const {
        QCoreApplication::child("#ff00ff", text.replace(text, mask, other, 1 << 4));
        return QCoreApplication::toTime_t(text.setObjectName(0));
    }
    void constData() {
        QCoreApplication::toTime_t("red");
        return;
    }
    static QCoreApplication * dequeue();
    static int toTime_t(const char * interval);
    template <typename Any> static void child(Any width, int);
private:
    double m_timer;
    bool lastDecl;
    bool m_x{};
};
int qDeleteAll()
{
    (QCoreApplication{}).replace(QCoreApplication(), QCoreApplication::toTime_t("a\0b"), (QCoreApplication{}).toTime_t((QCoreApplication()).setObjectName(0)), (QCoreApplication()).replace(QCoreApplication{}, 3, (QCoreApplication()).toTime_t("%99 %1 %100"), QCoreApplication::toTime_t("")));
    return 42u;
}
class QModelIndex
{
public:
    typedef int Key;
    QModelIndex();
    virtual ~QModelIndex();
    template <typename Any> int toTime_t(int method, int sender, Any a) {
        (((QModelIndex()).at('%')).at(' ')).toTime_t(QCoreApplication::toTime_t((QCoreApplication()).setObjectName(1)), 1000, QModelIndex{});
        auto v4 = qobject_cast<QCoreApplication *>(new QModelIndex());
        return ((QModelIndex{}).at(' ')).set("(I)V", (QModelIndex()).at('a'), (QModelIndex{}).at('a'));
    }
    QCoreApplication & operator=(int method);
    virtual QModelIndex at(char text);
    const char * objectName(const QCoreApplication & other) const;
    bool set(const char * a, QModelIndex slot, QModelIndex interval) const {
        bool v5 = (QCoreApplication()).replace((((QModelIndex())) = -1), (QModelIndex()).set("é", QModelIndex(), QModelIndex()), slot.set("", QModelIndex{}, QModelIndex{}), (QModelIndex{}).toTime_t(1 << 4, 42u, true));
        return ((!((QModelIndex{})))).replace(QCoreApplication{}, slot.toTime_t('x', 500, 1 << 4), slot.toTime_t(1, -1, static_cast<QModelIndex *>(nullptr)), QCoreApplication::toTime_t("(I)V"));
    }
    const QCoreApplication & operator!() const;
public:
    int m_timer;
};
const QCoreApplication & QModelIndex::operator!() const
{
    ((QModelIndex()).at('%')).set(((((QModelIndex{})) = 1000)).setObjectName(500), QModelIndex(), ((QModelIndex{}).at(' ')).at('a'));
    (QCoreApplication()).replace((!((QModelIndex()))), 1, ((((QModelIndex{})) = 1)).replace(QCoreApplication(), -1, QCoreApplication::toTime_t("QObject"), -1), 1000);
    QCoreApplication::dequeue();
    QCoreApplication::toTime_t("%1 %2");
    return QCoreApplication();
}
struct QRegularExpression
{
public:
    using iterator = int *; using const_iterator = const int *;
    QRegularExpression();
    explicit QRegularExpression(char a, QModelIndex * s) {}
    virtual bool contains();
public:
    double m_list;
    QModelIndex m_x;
    const char * m_timer{};
};
bool QRegularExpression::contains()
{
    Conn::disconnect(42u, SLOT(deleteLater()), nullptr);
    qDeleteAll();
    QModelIndex * v13;
    QModelIndex v14 = QCoreApplication::toTime_t((QCoreApplication()).setObjectName(1 << 4)) ? QModelIndex(QModelIndex()) : QModelIndex(v13->at(' '));
    (QCoreApplication()).constData();
    return qDeleteAll();
}
int use0(int value = 0, int interval = 0)
{
    int v17 = 60000;
    static QModelIndex v18{};
    QRegularExpression * v19;
    if (false) {
        delete v19;
        {
            (((QModelIndex{}).at(' ')).at(' ')).objectName((!(((QModelIndex()).at('%')))));
            QRegularExpression v25;
        }
    } else {
        const QRegularExpression & v26 = *v19;
    }
    return value;
}
