#include <miniqt.h>
