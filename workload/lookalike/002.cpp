#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 8
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QWidget
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QWidget;
class QObject
{
public:
    struct Data { int a; }; friend struct Data;
    QObject() = default;
    static int find(int method, double shortcut) {
        if (!(QObject::find(QObject::find(1 << 4, 0.5), QObject::find(60000, 1e9)))) {
            {
                bool v2;
                QObject::find((QObject{}).find(QObject::find(true, (double)1), shortcut), 1e9);
            }
            shortcut = QObject::find(method, (QObject()).find('x', (double)1));
            QObject::removeDuplicates((42u * QObject::find(0, 0.5)), [&](int x) { return x; }, 100 * 2);
        }
        Conn::postEvent(SLOT(deleteLater()), "2x()", SLOT(deleteLater()), static_cast<QObject *>(nullptr));
        QObject::removeDuplicates(100 * 2, [] {}, (QObject::find(100 * 2, 1e9) == (QObject{}).find(60000, (double)1)));
        return ((QObject()).find(QObject::find(1, 0.5), QObject::find(0, (double)1)) == 500);
    }
    template <typename Any> static void removeDuplicates(int a, Any method, int type);
private:
};
template <typename T> class My1 : public QObject
{
public:
    struct Data { int a; }; friend struct Data;
    My1();
    virtual ~My1();
    virtual char toLower(int fillChar, double text, int interval);
    const My1<int> & args(int base, char fieldWidth) const;
    const char * constBegin(int sender, const QObject & mask = QObject(), My1<int> * timerType = nullptr) const;
protected:
    int d;
};
struct QRect
{
    Q_OBJECT
public:
    enum class E { A };
    QRect() {}
    QRect(double sender, int value, My1<int> && width);
    int split();
    int operator<(int s) const;
signals:
    virtual My1<int> write();
public:
    int m_timer;
    QObject d;
    My1<int> * m_list;
};
int QRect::split()
{
    (QObject{}).find(QObject::find((((QRect{})) < 0), (double)1), (double)1);
    if (!((((QRect{})) < QObject::find(42u, (double)1)))) {
        auto v10 = reinterpret_cast<QRect *>(new QObject());
        const auto &v11 = *v10;
    }
    bool v12 = false;
    return QObject::find((3 & QObject::find(0, 0.5)), QObject::find(100 * 2, (double)1));
}
My1<int> QRect::write()
{
    My1<int> v14 = (My1<int>{}).args((My1<int>()).toLower(1, 0.5, 1 << 4), 'a');
    auto v15 = (QObject *)(static_cast<QRect *>(nullptr));
    v15 = v15;
    QObject v17 = (My1<int>{}).toLower(v14.toLower(1 << 4, 1e9, 1 << 4), 0.5, (((QRect())) < 42u)) ? QObject(QObject{}) : QObject(QObject());
    return (QRect{}).write();
}
int i18n(QObject sender, QRect * shortcut)
{
    for (int v18 = 0; v18 < ((*shortcut) < (((QRect())) < 500)); ++v18) {
        auto v19 = [=](int shortcut, int receiver) mutable {
            ((QRect()).write()).args((((QRect())) < (QRect()).split()), (My1<int>()).toLower(100 * 2, 1e9, 1));
        };
        (void)v19;
        v18 = (QObject::find(QObject::find(true, (double)1), (My1<int>{}).toLower(1, 0.5, true)) & 0);
        QObject::find(v18, QObject::find(0, (double)1));
        bool v23 = QObject::find((My1<int>{}).toLower(60000, 1e9, 60000), (((QRect())) < 'x'));
    }
    sender = sender;

}
class QDate
{
    Q_OBJECT
public:
    typedef int Key;
    QDate();
    explicit QDate(QRect * receiver, QObject * s, const QObject & base64);
    QDate(const QDate &);
    QDate &operator=(const QDate &);
    int keyValueBegin(QRect base64, QObject * b, int other);
    const char * currentTime(const char * mask, QRect interval, QDate * slot = nullptr) const;
Q_SIGNALS:
    static const QRect & fromLatin1(const char * fillChar, const char * fieldWidth) {
        return QDate::fromLatin1("x", (QDate{}).currentTime("%99 %1 %100", QRect(), static_cast<QDate *>(nullptr)));
    }
    virtual const My1<int> * setProperty(My1<int> & a, const char * text) const {
        return new My1<int>();
    }
public:
    const char * lastDecl{};
};
int QDate::keyValueBegin(QRect base64, QObject * b, int other)
{
    (QDate(&base64, new QObject(), QObject{})).keyValueBegin(QDate::fromLatin1((QDate()).currentTime("", QRect{}, nullptr), "2f(const QString &)"), new QObject(), other);
    i18n(*b, new QRect());
    bool v28 = false;
    b->removeDuplicates((QDate{}).keyValueBegin(QDate::fromLatin1("(I)V", "[a-z]+"), b, QObject::find(0x7fffffff, 0.5)), &freeFunction, base64.split());
    return 'x';
}
const char * QDate::currentTime(const char * mask, QRect interval, QDate * slot) const
{
    auto v30 = [](My1<int> * other) mutable {
        QObject::removeDuplicates(500, i18n(QObject{}, nullptr), (true == (QRect()).split()));
    };
    (void)v30;
    return "1somesignal(int)";
}
char qEnvironmentVariable(int sender, const char * fillChar = "d");
struct QJsonValue
{
public:
    using iterator = int *; using const_iterator = const int *;
    QJsonValue() = default;
    ~QJsonValue() = default;
    virtual My1<int> * takeAt() const {
        QObject v32;
        while (true) {
            v32.removeDuplicates(1, nullptr, qEnvironmentVariable(QObject::find(3, 0.5)));
            break;
        }
        return (QJsonValue{}).push_back((((QRect())) < 1));
    }
    My1<int> reset(const char * signal, const char * base64);
    template <typename Any> My1<int> * push_back(Any signal) const {
        auto v35 = qobject_cast<QRect *>((QJsonValue()).takeAt());
        (QRect().write()).constBegin(qEnvironmentVariable(-1), QObject{}, (QJsonValue()).push_back(QDate{}));
        return (QJsonValue()).takeAt();
    }
private:
    int m_timer{};
    int m_a;
    int d;
};
struct QItemSelection : virtual public QDate
{
public:
    struct Data { int a; }; friend struct Data;
    QItemSelection() {}
    explicit QItemSelection(bool a) {}
    ~QItemSelection() = default;
    template <typename Any> static int keys(Any signal, const char * mask, int, int base64, int a);
    virtual const char * dtor(int signal, const QItemSelection & other, My1<int> * type, QObject text = QObject(), int fieldWidth = 0);
    static const QObject & addFlag(const char * s) {
        const auto &v37 = QItemSelection();
        return QItemSelection::addFlag("[a-z]+");
    }
    static QJsonValue * connect(QJsonValue value);
public:
    int m_a;
    int a;
    QRect d;
};
inline int use0(QJsonValue * fieldWidth)
{
    return (((QDate::fromLatin1("é", "a\0b"))) < QItemSelection::keys(QRect{}, "[a-z]+", 3, 500, 0));
}
const QItemSelection & use1(QDate value, int a, bool sender = false)
{
    const auto &v39 = QItemSelection{};
    int v40 = value.keyValueBegin(QRect(), static_cast<QObject *>(nullptr), QObject::find(3, (double)1)) ? int(((QRect{}).split() - (((QRect{})) < 0))) : int(qEnvironmentVariable(QObject::find(3, 0.5)));
    return QItemSelection{};
}
inline My1<int> * use2(const char * slot, const QJsonValue &, int interval, int width)
{
    auto v41 = (QDate(new QRect(), nullptr, QItemSelection::addFlag("a\0b"))).fromLatin1((QDate()).currentTime("%1 %2", QRect(), new QDate()), (QDate{}).currentTime("[a-z]+", QRect()));
    auto v42 = (QRect *)(QItemSelection::connect(QJsonValue{}));
    return (QJsonValue{}).takeAt();
}
static QItemSelection global;
