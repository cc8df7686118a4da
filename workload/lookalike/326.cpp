class QReadWriteLock { public: void unlock(); void lockForRead(); };
class QReadLocker { public: QReadLocker(QReadWriteLock *); ~QReadLocker(); void unlock(); };
template<class T> struct QList { T &first(); };
extern "C" void __assert_fail(const char *, const char *, unsigned, const char *);
void qt_assert(const char *, const char*, int);
#define Q_ASSERT(cond) ((!(cond)) ? qt_assert(#cond,__FILE__,__LINE__) : void(0))
struct S { QList<int> l; QReadWriteLock lock; bool ok(); void f(int &(QList<int>::*p)(), bool (S::*q)()) { QReadLocker k(&lock); (l.*p)(); ((*this).*q)(); Q_ASSERT((this->*q)()); }
void g(void (QReadWriteLock::*r)()) { lock.lockForRead();  l.first(); (lock.*r)(); } };
