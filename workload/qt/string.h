#include "ministd.h"
