#pragma once
// clazy:excludeall=qstring-allocations
#include "a.h"
struct B {
    ~B();
    B(const B &);
    B();
    QList<QString> names() { return {}; }
    QString s() { return QString("b"); } // clazy:exclude=function-args-by-ref
    void take(QString s) { (void)s; }
    void take2(QString s) { (void)s; } // NOLINT
    // NOLINTNEXTLINE(clazy-function-args-by-ref)
    void take3(QString s) { (void)s; }
    // clazy:exclude-next-line=function-args-by-ref
    void take4(QString s) { (void)s; }
};
