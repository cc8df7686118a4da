#include <QtCore/QString>

class Test
{
public:
    void foo(QString);
    void bar(QString) {}
};

void Test::foo(QString)
{

}
