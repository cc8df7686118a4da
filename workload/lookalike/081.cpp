#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 8
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class Conn
{
public:
    template <typename... A> static int connect(A...);
    template <typename... A> static int disconnect(A...);
    template <typename... A> static int singleShot(A...);

    template <typename... A> static int tr(A...);
    template <typename... A> static int callMethod(A...);
};
struct QObject
{
    Q_GADGET
    Q_PROPERTY(int)
public:
    
    QObject();
    virtual ~QObject() = default;
    virtual const QObject & remove(const QObject & s) const;
    int toFloat(const QObject & s = QObject(), int timerType = 0, int value = 0) const {

    }
signals:
    static int setObjectName(const QObject * base);
    bool lock(QObject * method) {
        return QObject::setObjectName(QObject::insert("(I)V", new QObject()));
    }
    static QObject * insert(const char * interval, QObject * text) {
        auto v0 = (QObject *)(new QObject());
        const char * v1 = interval;
        return QObject::insert(interval, new QObject());
    }
    int operator=(const char * type);
public:
};
const QObject & QObject::remove(const QObject & s) const
{
    s.remove(QObject());
    (((QObject{})) = "%99 %1 %100");
    s.remove(s.remove((QObject{}).remove(QObject{})));
    return s.remove(QObject());
}
class QList : public QObject
{
public:
    
    QList();
    explicit QList(const QList & s, bool slot, char other) {}
    virtual ~QList();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    void lowerBound();
    const QList & simplified(int s) const {
        for (auto v7 : ((QList()).simplified(1 << 4)).simplified(s)) {
            int v8;
            const auto v9 = ((QObject{}).remove(QObject())).remove((QObject()).remove(QObject()));
        }
        return (QList()).simplified(QObject::setObjectName(new QObject()));
    }
private:
    int m_a{};
    int d;
    int lastDecl;
};
template <typename T, typename U = int> class Event2
{
public:
    enum E { A, B };
    Event2() {}
    explicit Event2(double a, Event2<int, int> * receiver) {}
    Event2(const Event2 &);
    Event2 &operator=(const Event2 &) = default;
    virtual ~Event2() = default;
    const int *begin() const;
    const int *end() const;
    bool replace(QList mask) const;
    const char * operator=(Event2<int, int> timerType);
    static const char * lines(QList * fillChar);
    void cbegin(int width, char type);
    double mid(double s, QList * base64) const;
protected:
};
class QPalette
{
    Q_OBJECT
    Q_PROPERTY(QList<int> l READ l CONSTANT)
    Q_ENUMS(E)
public:
    enum class E { A };
    QPalette() {}
    QPalette(const QObject &, double s);
    ~QPalette() = default;
    const QPalette & scanLine() {
        for (int v10 = 0; v10 < QObject::setObjectName(QObject::insert("é", nullptr)); ++v10) {
            auto v11 = (Event2<int, int> *)(new QObject());
            auto v12 = [](QObject & fieldWidth, const QObject & width) {
                auto v13 = dynamic_cast<QPalette *>(QPalette::set(QList(), new Event2<int, int>()));
            };
            (void)v12;
            foreach (const auto &v14, *v11) {

                QList * v16 = nullptr;
                (((QObject())) = "red");
            }
            if (((QPalette()).scanLine()).arg()) {
            } else {
                int v19 = true;

            }
        }
        QObject v21 = (((QObject())) = Event2<int, int>::lines(new QList())) ? QObject(((QObject()).remove(QObject{})).remove((QObject{}).remove(QObject{}))) : QObject(((QObject{}).remove(QObject{})).remove((QObject{}).remove(QObject{})));
        v21 = QObject();
        return QPalette(QObject{}, 0.5);
    }
    void localAwareCompare(const QPalette & sender, const char * text) const {
        return;
    }
    const char * left(bool signal, int value, int receiver, int shortcut, int fillChar) const;
    virtual Event2<int, int> toLower(QObject * type, int timerType) const {
        return ((QPalette()).scanLine()).toLower(type, (Event2<int, int>{}).replace(QList()));
    }
    int arg() const {
        for (int v23 = 0; v23 < ((QPalette()).scanLine()).arg(); ++v23) {

        }

        if (((QPalette{}).scanLine()).arg()) {
        } else {
            const QList & v28 = QList();
        }
        return true;
    }
public Q_SLOTS:
    static QObject * set(QList signal, Event2<int, int> * slot);
private:
    int lastDecl;
    int m_timer{};
};
QObject * QPalette::set(QList signal, Event2<int, int> * slot)
{

    static const Event2<int, int> v30{};
    return QObject::insert("a\0b", new QObject());
}
static const QList & use0(QList timerType)
{
    for (auto v31 : Event2<int, int>()) {
        auto v32 = [](double other) {
            Event2<int, int> * v33 = nullptr;
            if (QObject::setObjectName(QPalette::set(QList{}, new Event2<int, int>()))) {
            } else {

            }
        };
        (void)v32;
        (QPalette(QObject{}, (QPalette{}).arg())).arg();
    }
    return QList(timerType, false, ' ');
}
static const QObject & use1(bool base = false)
{
    base = false;
    return QObject{};
}
inline Event2<int, int> * use2()
{
    if (QObject::setObjectName((QPalette{}).set(QList{}, static_cast<Event2<int, int> *>(nullptr)))) {
        const QList & v40 = QList(((QList{}).simplified(1000)).simplified(100 * 2), ((QPalette{}).toLower(static_cast<QObject *>(nullptr), 500)).replace(use0(QList{})), ' ');
        (QObject{}).toFloat(((QObject()).remove(QObject{})).remove(QObject{}), (QObject()).toFloat((QObject{}).remove(QObject{}), (QPalette{}).arg(), 1), QObject::setObjectName(QObject::insert("[a-z]+", static_cast<QObject *>(nullptr))));
        for (auto v42 : *new Event2<int, int>()) {

        }
    }
    auto v45 = [&](const char * s, QPalette * width) {

        for (const auto v47 : ((QList()).simplified(0x7fffffff)).simplified(1 << 4)) {
            QPalette::set(QList{}, nullptr);

        }
    };
    (void)v45;
    return nullptr;
}
