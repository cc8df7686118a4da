#include "ui_foo.h"
