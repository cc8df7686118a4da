#include "header1.h"
template <typename Key, typename T> class QCache  ;
class SomeClass;
