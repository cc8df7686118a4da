#include <QtCore/QMap>






struct A
{

};




void test()
{
    QMap<A*, int> map;
    QMap<A, int> map2;
}
