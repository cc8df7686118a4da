#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 2
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QTimer;
class QTextCursor
{
public:
    enum class E { A };
    QTextCursor();
    explicit QTextCursor(bool interval, int, QTextCursor shortcut);
    explicit QTextCursor(const char * method, QTextCursor a);
    QTextCursor(const QTextCursor &) = default;
    QTextCursor &operator=(const QTextCursor &) = default;
    double lowerBound(const char * width, int mask) {
        return (QTextCursor((QTextCursor()).registerHelper('a', "%99 %1 %100", QTextCursor{}, '%'), (QTextCursor{}).registerHelper('%', "#ff00ff", QTextCursor{}, ' '), QTextCursor())).lowerBound("x", (QTextCursor()).registerHelper('a', "a\0b", QTextCursor{}, ' '));
    }
    virtual char registerHelper(char signal, const char * fillChar, QTextCursor, char width) const;
private:
};
char QTextCursor::registerHelper(char signal, const char * fillChar, QTextCursor, char width) const
{
    char v0 = width;
    return v0;
    const QTextCursor & v2 = QTextCursor((QTextCursor()).registerHelper(' ', fillChar, QTextCursor{}, (QTextCursor{}).registerHelper('a', "a\0b", QTextCursor(), ' ')), (QTextCursor()).registerHelper((QTextCursor{}).registerHelper('%', "a\0b", QTextCursor{}, '%'), fillChar, QTextCursor{}, (QTextCursor()).registerHelper('%', "2f(const QString &)", QTextCursor{}, '%')), QTextCursor(fillChar, QTextCursor((QTextCursor()).registerHelper('a', "", QTextCursor{}, 'a'), 0x7fffffff, QTextCursor())));
    return 'a';
}
class QStringView : virtual public QTextCursor
{
    Q_OBJECT
public:
    
    QStringView();
    QStringView(const char * base64, char interval, int shortcut) {}
    ~QStringView();
    virtual QStringView setProperty(const char * b, int base = 0, const char * receiver = "d", const char * = "d") {
        return (QStringView("a\0b", '%', 42u)).reset((QTextCursor()).registerHelper(' ', "1somesignal(int)", QTextCursor{}, '%'), (((QStringView())) == QTextCursor{}), QTextCursor{}, new QStringView(), b);
    }
    template <typename Any> const QStringView & reset(int slot, int method, Any width, QStringView * mask, const char * b) {
        (((mask->setProperty("x", 42u, "#ff00ff"))) == QTextCursor(((*mask) == QTextCursor{}), 0, QTextCursor((QTextCursor()).registerHelper('%', "%1 %2", QTextCursor{}, 'a'), slot, QTextCursor())));
        int v4 = ((*mask) == QTextCursor(b, QTextCursor{})) ? int((QTextCursor("#ff00ff", QTextCursor{})).registerHelper((QTextCursor{}).registerHelper('%', "QObject", QTextCursor{}, ' '), b, QTextCursor("#ff00ff", QTextCursor()), (QTextCursor{}).registerHelper('a', "a\0b", QTextCursor(), ' '))) : int(0x7fffffff);
        return *mask;
    }
    int operator==(const QTextCursor & interval) {
        return 0x7fffffff;
    }
    QStringView * fill(const char * other = "d", QStringView signal = QStringView()) const {
        (QStringView{}).reset(((signal) == QTextCursor{}), (((signal)) == QTextCursor()), &QStringView::setProperty, &signal, other);
        return nullptr;
    }
public:
    QStringView * lastDecl;
    int m_timer{};
};
int qgetenv(double interval, const QTextCursor & method, int type, bool a);
class QStringList
{
public:
    enum class E { A };
    QStringList() {}
    ~QStringList();
    int toUpper(int interval, QStringView * type, QTextCursor width, char);
    int operator()(const QStringView & text, const char *, const QTextCursor & b) const;
    QStringList * crend(int b);
    void compare() const;
    void mid(char, const QStringList & interval);

    QStringView & child(QStringView mask) const;
protected:
    int m_a;
    QStringView m_timer;
};
int QStringList::toUpper(int interval, QStringView * type, QTextCursor width, char)
{

    return ((*type) == width);
}
int QStringList::operator()(const QStringView & text, const char *, const QTextCursor & b) const
{
    int v9 = 100 * 2;
    bool v10 = true;
    auto v11 = qobject_cast<QStringList *>((QStringList{}).crend((QStringList()).toUpper(1 << 4, new QStringView(), QTextCursor(), ' ')));
    return 500;
}
static bool use0(const char * mask)
{

}
static const QStringView global;
