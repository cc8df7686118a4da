#include <QtCore/QObject>

class MyObj : public QObject
{
public:
    using QObject::QObject;
};
