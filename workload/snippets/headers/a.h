#pragma once
#include <QtCore/QString>
#include <QtCore/QList>
#include <QtCore/QObject>
class A : public QObject
{
    Q_OBJECT
public:
    QList<QString> names() { QString unused; return m_names; }
    void take(QString s) { (void)s; }
    virtual void f(QList<QString> l);
public Q_SLOTS:
    QString getter() { return QString("a"); }
Q_SIGNALS:
    int changed(QString);
private:
    QList<QString> m_names;
};
