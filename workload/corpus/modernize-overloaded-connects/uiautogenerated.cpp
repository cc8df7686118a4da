#include "ui_generateme.h"
