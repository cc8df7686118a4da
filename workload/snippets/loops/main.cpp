#include <QtCore/QString>
#include <QtCore/QList>
#include <QtCore/QVector>
#include <QtCore/QMap>
#include <QtCore/QHash>
#include <QtCore/QStringList>
struct Holder {
    QList<QString> list() const;
    QVector<int> vec;
    QMap<QString, int> map;
    QHash<int, QString> hash;
};
void a(Holder &h, QList<QString> strings)
{
    QVector<QString> out;
    for (QString s : strings)
        out.push_back(s);
    QList<int> nums;
    for (int i = 0; i < 100; ++i)
        nums.append(i);
    foreach (QString s, strings) { out << s; }
    for (auto i : h.vec) h.vec.append(i);
    for (const QString &k : h.map.keys()) { (void)k; }
    foreach (int v, h.hash.keys()) { (void)v; }
    if (h.map.values().contains(3) && h.list().first().isEmpty()) h.list().removeFirst();
    for (auto it = h.vec.begin(); it != h.vec.end(); ++it) { while (true) { h.vec.push_back(1); } }
    QString s1("unused"), s2 = strings.at(0).mid(2).trimmed();
    int n = strings.at(0).mid(1, 2).toInt();
    (void)n;
    const QString c = h.map.keys().at(0);
    h.map.find("x").value() = strings.count() == 0;
    auto l = [strings, h](QString x) mutable { for (QString y : strings) { x += y; } return x; };
    l("z");
}
struct Reserve { QVector<int> m; void fill() { for (int i = 0; i < 10; ++i) m << i; } void two() { QVector<int> v; while (m.size()) { v.append(1); } } };
