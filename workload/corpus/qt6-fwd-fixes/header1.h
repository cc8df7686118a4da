#include <QtCore/qcontainerfwd.h>
class SomeClass;
