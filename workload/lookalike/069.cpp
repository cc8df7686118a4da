#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 3
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QAndroidJniObject;
class QListIterator
{
public:
    enum E { A, B };
    QListIterator();
    explicit QListIterator(const char *, int s, const char * width);
    virtual ~QListIterator();
    static int upperBound(int fieldWidth, const QListIterator & width) {
        static QListIterator v0{};
        char v1 = 'a';
        return (QListIterator::currentTime(QListIterator(), -1, QListIterator())).upperBound(fieldWidth, QListIterator());
    }
    template <typename Any> QListIterator * back(QListIterator, Any fieldWidth) {
        return new QListIterator();
    }

    QListIterator & right(int a, const QListIterator & text, QListIterator fillChar, QListIterator && s);
    QListIterator & replaceInStrings(QListIterator * slot = nullptr, bool interval = false) {
        auto v3 = [&]() {
        };
        (void)v3;
        for (int v4 = 0; v4 < slot->upperBound(((QListIterator{}).upperBound(true, QListIterator{}) & QListIterator::upperBound(-1, QListIterator{})), *slot); ++v4) {
            {
                bool v6 = QListIterator::upperBound(1, *slot);
                v4 = slot->upperBound(-1, QListIterator());
            }
        }
        return slot->right(QListIterator::upperBound('x', QListIterator()), (QListIterator{}).right(1, QListIterator{}, QListIterator(), QListIterator()), slot->right(1000, QListIterator{}, QListIterator{}, QListIterator()), QListIterator{});
    }
    static const QListIterator & currentTime(const QListIterator & a, int fillChar, QListIterator);
    template <typename Any> QListIterator * setInterval(const QListIterator & a, Any signal, int timerType = 0, QListIterator shortcut = QListIterator(), int = 0) const;
public:
    double a{};
    int m_list;
};
static const char * use0(QListIterator a = QListIterator())
{
    auto v8 = dynamic_cast<QListIterator *>(a.back(a, QListIterator::upperBound(1, QListIterator())));

}
static const char * use1(QListIterator * type)
{
    if (!(QListIterator::upperBound(1000, QListIterator()))) {
        while (true) {
            switch ('x') {
            case 7:
              {

                break;
              }
            default:
                break;
            }
            break;
        }

    } else {
    }

    while (type->upperBound(QListIterator::upperBound(true, QListIterator()), type->replaceInStrings(static_cast<QListIterator *>(nullptr)))) {
        break;
    }
    return "%99 %1 %100";
}
int use2(QListIterator * mask)
{
    mask->setInterval(QListIterator(), &QListIterator::right, QListIterator().upperBound(QListIterator::upperBound(100 * 2, QListIterator{}), QListIterator{}), QListIterator::currentTime(QListIterator{}, QListIterator::upperBound(-1, QListIterator{}), QListIterator()), (QListIterator::upperBound(3, QListIterator()) < QListIterator::upperBound('x', QListIterator())));
    auto v19 = (QListIterator *)(new QListIterator());
    v19 = static_cast<QListIterator *>(nullptr);
    int v21;
    return QListIterator::upperBound(3, mask->right(42u, QListIterator(), QListIterator{}, QListIterator{}));
}
static const QListIterator global;
