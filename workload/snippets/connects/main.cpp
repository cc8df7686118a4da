#include <QtCore/QObject>
#include <QtCore/QString>
#include <QtCore/QTimer>
#include <QtCore/QThread>
class Sender : public QObject
{
    Q_OBJECT
public:
    void run();
    void notASlot();
Q_SIGNALS:
    void done();
    void value(int);
    void value(QString);
public Q_SLOTS:
    void onDone();
    void on_sender_done();
    void onValue(int);
};
void Sender::run()
{
    QObject *o = this;
    connect(this, SIGNAL(done()), SLOT(onDone()));
    QObject::connect(this, SIGNAL(value(int)), o, SLOT(onValue(int)));
    connect(this, &Sender::done, this, &Sender::notASlot);
    connect(this, &Sender::done, [this] { onDone(); });
    connect(this, &Sender::done, this, [] {}, Qt::UniqueConnection);
    connect(this, SIGNAL(wrong()), this, SLOT(wrong2()));
    disconnect(this, SIGNAL(done()), this, SLOT(onDone()));
    QTimer::singleShot(0, this, SLOT(onDone()));
    Sender *s = new Sender;
    Sender local;
    qobject_cast<Sender *>(o)->onDone();
    dynamic_cast<Sender *>(o);
    static_cast<QObject *>(s);
    emit onDone();
    done();
}
class Worker : public QThread
{
    Q_OBJECT
public Q_SLOTS:
    void work();
protected:
    void run() override { Sender s; connect(&s, &Sender::done, this, &Worker::work); work(); }
};
