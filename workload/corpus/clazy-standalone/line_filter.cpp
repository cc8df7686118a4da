#include <QtCore/QDateTime>

void t()
{
    QDateTime::currentDateTime().toSecsSinceEpoch();
    QDateTime::currentDateTime().toSecsSinceEpoch();
}
