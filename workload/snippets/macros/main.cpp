#include <QtCore/QString>
#include <QtCore/QList>
#include <QtCore/QObject>
#define LITERAL(x) QString(x)
#define TWICE(x) x; x
#define DECLARE(name) struct name { ~name(); name(const name &); void take(QString s) { (void)s; } };
#define LOOP(l) for (QString s : l) { (void)s.size(); }
#define MAKE(type, ...) type __VA_ARGS__
DECLARE(One)
DECLARE(Two)
DECLARE(Three)
MAKE(static QString, s_text = LITERAL("static"));
void f(QList<QString> &l)
{
    TWICE(LITERAL("twice").size());
    LOOP(l)
    LOOP(l) LOOP(l)
    QString a = LITERAL("a"); QString b = LITERAL(LITERAL("b"));
    a = "assigned"; b += "appended";
    MAKE(QString, c = "c");
    if (a == "compared" || b == LITERAL("x")) { l.append("y"); }
    foreach (QString s, l) { (void)s; }
}
#undef LITERAL
#define LITERAL(x) QByteArray(x)
void g() { QString s = LITERAL("bytes"); (void)s; }
