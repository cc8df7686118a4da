template <class T> class QList { public: QList(); QList(const QList &); ~QList(); QList &operator<<(T *); QList &operator*(); QList &operator()(); QList &operator++(); };
QList<int> a;
int x;
QList<int> &b = a << &x;
void take(const QList<int> &);
void f(QList<int> *p)
{
    const QList<int> l = *a << &x;
    const QList<int> m = a() << &x << &x;
    const QList<int> n = ++a << &x;
    const QList<int> o = (*p) << &x;
    take(*a << &x);
    take(QList<int>() << &x);
}
