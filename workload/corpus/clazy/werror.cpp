#include <QtCore/QString>

void test()
{
    qgetenv("Foo").isEmpty();
}
