#include <QtCore/QDateTime>

void t()
{
    QDateTime::currentDateTime().toSecsSinceEpoch();
}
