#pragma once
// clazy:skip
#include "a.h"
static QString s_skipped = QString("c");
struct C { ~C(); C(const C &); void take(QString s) { (void)s; } };
