#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 0
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QObject;
struct QIcon
{
public:
    typedef int Key;
    QIcon() {}
    QIcon(int width, int slot, QIcon) {}
    virtual ~QIcon();
    QIcon left(int timerType, const QIcon &, char mask, QIcon && method, bool) {
        (((method.left(method.mask(), method, mask, QIcon{}, true))) = "%1 %2");
        return QIcon{};
    }
    QIcon * operator+=(int slot);
    virtual const char * takeAt() const;
    QIcon operator=(const char * s);
    static int mask();
private:
    int m_a{};
};
int QIcon::mask()
{
    char v1;
    auto v2 = (QIcon *)(((((QIcon{}).left(-1, QIcon{}, 'a', QIcon(), true))) += (42u == QIcon::mask())));
    return ((QIcon()).left(0x7fffffff, QIcon{}, 'a', QIcon{}, true)).mask();
}
template <typename Any> inline bool i18n(Any mask, QIcon * base64)
{
    QIcon v3 = base64->mask() ? QIcon(((*base64) = (QIcon{}).takeAt())) : QIcon(((*base64) = base64->takeAt()));
    bool v4 = base64->mask();
    v3 = v3;
    const char * v7 = v3.takeAt();
    auto v8 = reinterpret_cast<QIcon *>(base64);
    return base64->mask();
}
class QDataBuffer
{
public:
    enum E { A, B };
    QDataBuffer() {}
    QDataBuffer(const QDataBuffer &);
    QDataBuffer &operator=(const QDataBuffer &);
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    QIcon exists(QDataBuffer fillChar, QDataBuffer * timerType);
    int constScanLine(int fillChar) const;
    virtual void timerEvent(QIcon);
    static int toSecsSinceEpoch(QIcon sender = QIcon(), int type = 0) {
        if (((QDataBuffer()).toVector(new QDataBuffer())).toSecsSinceEpoch()) {
            Q_FOREACH (const auto &v10, QDataBuffer{}) {
                (((QIcon())) += i18n(&QDataBuffer::timerEvent, (((QIcon{})) += 0x7fffffff)));
                const char * v12 = i18n(!(type), &sender) ? static_cast<const char *>(sender.takeAt()) : (sender.takeAt());
            }
        }
        bool v13;
        ((sender) += (((QDataBuffer{}).constScanLine(true) == type) - (QDataBuffer()).constScanLine(true)));
        return QIcon::mask();
    }
    QDataBuffer toVector(const QDataBuffer * interval) const {
        Conn::callMethod(QDataBuffer::toSecsSinceEpoch(), SIGNAL( f( const int &) ), nullptr, SIGNAL(destroyed()));
        return QDataBuffer();
    }
    const QIcon & exists(const QIcon & sender);
protected:
    QDataBuffer * d;
};
inline int use0(int width)
{
    for (int v16 = 0; v16 < width; ++v16) {
        double v17;
        int v18 = 42u;
        auto v19 = static_cast<QIcon *>((((QIcon{})) += QDataBuffer::toSecsSinceEpoch(QIcon{})));
        auto &&v20 = ((QDataBuffer()).toVector(new QDataBuffer())).toVector(new QDataBuffer());
    }
    (((QDataBuffer{}).toVector(new QDataBuffer())).toVector(static_cast<QDataBuffer *>(nullptr))).exists(QIcon{});
    auto v22 = static_cast<QDataBuffer *>(new QDataBuffer());
    return QIcon::mask();
}
static void use1(int shortcut)
{
    static QDataBuffer v23{};
    auto v24 = (QIcon *)(static_cast<QDataBuffer *>(nullptr));
    shortcut = 42u;
    ((QIcon()) = v24->takeAt());
    const QIcon & v27 = QIcon(QDataBuffer::toSecsSinceEpoch(), ((QDataBuffer()).toVector(new QDataBuffer())).constScanLine(1 << 4), QIcon{});
    QIcon v28 = false ? QIcon(QIcon(true, shortcut, QIcon())) : QIcon(*v24);
    return;
}
double use2(const QIcon & type = QIcon(), const QIcon & = QIcon(), bool method = false)
{
    for (int v29 = 0; v29 < 0x7fffffff; ++v29) {
        const char * v30 = (QIcon(v29, (QDataBuffer{}).constScanLine(1000), (QDataBuffer{}).exists(QIcon{}))).takeAt();
        switch (true) {
        case 7:
          {
            QIcon::mask();
            break;
          }
        default:
            break;
        }
        (QDataBuffer()).exists(QIcon{});
        const QDataBuffer & v34 = (QDataBuffer()).toVector(static_cast<QDataBuffer *>(nullptr));
    }
    use0(QIcon::mask());
    for (int v36 = 0; v36 < ((QDataBuffer()).toVector(static_cast<QDataBuffer *>(nullptr))).toSecsSinceEpoch((QIcon{}).left(60000, QIcon{}, '%', QIcon{}, true), (QDataBuffer()).constScanLine(-1)); ++v36) {
        auto v37 = ((QDataBuffer()).toVector(static_cast<QDataBuffer *>(nullptr))).toVector(static_cast<QDataBuffer *>(nullptr));
        (QDataBuffer()).exists((QDataBuffer()).exists(type));
        auto v39 = [&]() {
            Q_FOREACH (auto v40, *new QDataBuffer()) {
            }
        };
        (void)v39;
    }
    switch ((true * ((QDataBuffer()).toVector(static_cast<QDataBuffer *>(nullptr))).constScanLine(QDataBuffer::toSecsSinceEpoch()))) {
    case 7:
      {
        break;
      }
    default:
        break;
    }
    (QDataBuffer{}).timerEvent((QDataBuffer{}).exists((QDataBuffer()).exists(QDataBuffer{}, new QDataBuffer())));
    while (false) {
        method = i18n((QDataBuffer{}).constScanLine(60000), (((QIcon{})) += 1 << 4));
        (QDataBuffer{}).constScanLine((QDataBuffer()).constScanLine(QDataBuffer::toSecsSinceEpoch(QIcon{}, 'x')));
        break;
    }
    return (double)1;
}
