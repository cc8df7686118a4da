#include <QtCore/QDateTime>

void test2()
{
    QDateTime::currentDateTime().toSecsSinceEpoch();
}
