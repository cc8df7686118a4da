#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define signals public
#define slots
#define Q_OBJECT
struct QChar { QChar(int); };
class QString
{
public:
    QString(const char * = nullptr);
    QString arg(const QString &) const; QString arg(int, int, int) const;
    QString arg(const QChar &) const;
    QString arg(int width, QChar fill) const;
    QString arg() const;
};
class QObject
{
    Q_OBJECT
public:
    QObject(QObject *parent = nullptr);
    static bool connect(const void *sender, const char *signal, const QObject *receiver, const char *method);
    static bool connect(...);
    bool disconnect(const char *signal);
signals:
    void destroyed();
public slots:
    void deleteLater();
};
class QAction;
class QWidget : public QObject { public: QAction *addAction(); void addAction(QAction *); };
class QMenu : public QWidget { public: QAction *addAction(int = 0); };
QObject *sender();
void *unknown();
void f(QObject *o, QMenu *m, QAction *a)
{
    QObject::connect(unknown(), SIGNAL(destroyed()), o, SLOT(deleteLater()));
    QObject::connect(nullptr, SIGNAL(destroyed()), o, SLOT(deleteLater()));
    QObject::connect(sender(), SIGNAL(destroyed()), sender(), SLOT(deleteLater()));
    QObject::connect("", SIGNAL(destroyed()), o, SLOT(nothing()));
    QObject::connect(0, SIGNAL(destroyed()));
    o->connect(SIGNAL(destroyed()), SLOT(deleteLater()));
    o->disconnect(SIGNAL(destroyed()));
    m->addAction();
    m->QWidget::addAction();
    m->QWidget::addAction(a);
    QString s = QString("%1").arg(s).arg().arg(1, 'x').arg(QChar(1));
    s = s.arg(s).arg(s).arg(1, 2, 3);
}
