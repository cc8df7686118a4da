#include <QtCore/qcontainerfwd.h>
template <typename Key, typename T> class QCache  ;
