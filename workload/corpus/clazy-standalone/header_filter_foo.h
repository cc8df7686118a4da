#include <QtCore/QDateTime>

void test()
{
    QDateTime::currentDateTime().toSecsSinceEpoch();
}
