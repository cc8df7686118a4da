#include "a.h"
#include "b.h"
#include "c.h"
void useAll()
{
    A a;
    B b;
    for (QString s : a.names())
        s.size();
    for (auto it = b.names().begin(); it != b.names().end(); ++it) { }
}
