#include <QtCore/QTimer>
#include <chr\
ono>
#include <QtCore/QObj\
ect>
void f(QTimer &t, QObject *o)
{
    t.setInterval(1000 * 60);
    t.start(10 * 1000 / 2);
    t.start(500 / 0);
    t.start(1000 * 60 * 60 * 24 * 365);
    QTimer::singleShot(100 / 10, o, SLOT(deleteLater()));
}
