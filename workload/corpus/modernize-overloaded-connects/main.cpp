#include <QtCore/QObject>
#include <QtCore/QString>

void test()
{
}
