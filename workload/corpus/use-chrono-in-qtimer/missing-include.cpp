#include <QtCore/QObject>
#include <QtCore/QString>
#include <QtCore/QTimer>

void test()
{
    QTimer timer;
    timer.setInterval(1000); // Warn
}
