#include <QtCore/QObject>
#include <QtCore/QString>
#include <QtCore/QTimer>
#include <QtWidgets/QMenu>
#include <QtWidgets/QAction>

class Odd : public QObject
{
    Q_OBJECT
public:
    Odd *self();
    void wire(Odd *other);
signals:
    void fired();
    void fired(int);
public slots:
    void act();
};

struct Functor {
    int n;
    void operator()() { return; }
    void operator()(int) { if (n) return; act(); }
    bool operator<(const Functor &o) const { return n < o.n; }
    void act();
};

template <typename T> void generic(T *t)
{
    QObject::connect(t, SIGNAL(fired()), t, SLOT(act()));
    t->connect(t, &T::act, t, &T::act);
    t->template arg<int>(1);
}

void Odd::wire(Odd *other)
{
    QObject::connect(nullptr, SIGNAL(fired()), other, SLOT(act()));
    QObject::connect(0, SIGNAL(fired()), this, SLOT(act()));
    QObject::connect(this->self()->self(), SIGNAL(fired()), other ? other : this, SLOT(act()));
    connect(nullptr, SIGNAL(fired()), SLOT(act()));
    connect((Odd *)nullptr, SIGNAL(fired(int)), SLOT(fired()));
    QObject::disconnect(nullptr, nullptr, nullptr, nullptr);
    disconnect();
    disconnect(SIGNAL(fired()));
    disconnect(nullptr, SIGNAL(fired()), nullptr, nullptr);
    const char *sig = SIGNAL(fired());
    connect(this, sig, other, SLOT(act()));
    connect(this, "2fired()", other, "1act()");
    QTimer::singleShot(0, nullptr, SLOT(act()));
    QTimer::singleShot(10 / 3, [] {});
    QMenu menu;
    menu.addAction(QString());
    menu.addAction(static_cast<QAction *>(nullptr));
    Functor f;
    f();
    f(1);
    (void)(f < f);
    QString s = QString("%1 %2").arg(1).arg(QString("a"), QString("b")).arg('c');
    s = s.arg(s, 5).arg(s.arg(s), s);

}
