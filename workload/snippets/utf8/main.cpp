#include <QtCore/QString>
#include <QtCore/QList>
// Übersicht – 例 – пример
static QString s_grüße = QString("Grüße, 世界");
struct Größe { ~Größe(); Größe(const Größe &); void nimm(QString ß) { (void)ß; } };
/* 😀 */ void f(QString é, QList<QString> ü) { for (QString ö : ü) { é = ö + "ä"; } } // clazy:exclude=qstring-allocations
QString g() { return QString("\xc3\xa4") + "	tab" + QString("\"quoted\""); }
