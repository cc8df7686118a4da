#include <QtCore/QString>
#include <QtCore/QList>
#include <QtCore/QObject>
template<char... c> struct Tpl { Tpl(); ~Tpl(); int a[10]; Tpl(const Tpl &); };
static Tpl<'%'> s_one;
static Tpl<'%', '1', '%'> s_two;
void byRef(Tpl<'%'> x) { (void)x.a; }
void byRef2(QList<Tpl<'%', 's'>> l)
{
    for (Tpl<'%', 's'> x : l)
        (void)x.a;
}
struct Mod {
    Mod();
    virtual ~Mod();
    virtual QString operator%(QString s) const = 0;
    virtual int operator%=(Tpl<'%'> t);
};
class Derived : public Mod
{
public:
    QString operator%(QString s) const override { return s; }
    int operator%=(Tpl<'%'> t) override { return t.a[0] % 2; }
};
class Obj : public QObject
{
    Q_OBJECT
public:
    Obj() { operator%(QString("%1")); }
    virtual void operator%(const QString &s);
Q_SIGNALS:
    int percent(Tpl<'%', '0'>);
};
QString use(const QString &a) { return QString("%1 %2 %3").arg(a).arg(QString("%%")).arg("100%"); }
