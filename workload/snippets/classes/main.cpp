#include <QtCore/QObject>
#include <QtCore/QString>
#include <QtCore/QList>
#include <QtCore/QHash>
namespace N {
class Base : public QObject
{
    Q_OBJECT
public:
    Base();
    ~Base() override { virt(); }
    virtual void virt();
    virtual QString name(QString s) const;
Q_SIGNALS:
    void sig();
    int sigWithReturn();
    void constSig() const;
private Q_SLOTS:
    void slot();
    QString getter() const;
};
Base::Base() { virt(); Q_EMIT sig(); sig(); }
class Derived : public Base
{
public:
    Derived(int);
    void virt() override { QObject::startTimer(1); }
    void sig();
    QString name(QString s) const override { return s; }
    bool event(QEvent *) override { return false; }
};
class Grand : public Derived
{
    Q_OBJECT
    Q_PROPERTY(QString prop READ prop WRITE setProp)
    Q_PROPERTY(int other READ other NOTIFY sig)
public:
    Grand() : Derived(0) { }
    QList<int> prop() const;
    void setProp(int);
    long other() const;
};
struct Value { Value(); Value(const Value &); ~Value(); int v[20]; };
inline bool operator==(Value, Value) { return true; }
}
uint qHash(N::Value v, uint = 0);
template<typename T> struct Tree : QObject { T t; QHash<QString, T> h; void walk(QList<T> l) { for (T x : l) h.insert(QString("k"), x); } };
template struct Tree<N::Value>;
template struct Tree<QString>;
enum E { E1, E2 };
enum F { F1, F2 };
bool cmp(E e, N::Value a, N::Value b) { return e == E1 && a == b; }
