// what is otherwise said in functions, as initializers of everything else
template <class T> class QList { public: QList(); QList(const QList &); ~QList(); QList &operator<<(T); int size() const; int count() const; struct const_iterator; struct iterator { iterator(); operator T *(); }; struct const_iterator { const_iterator(); const_iterator(iterator); bool operator==(const_iterator) const; }; iterator begin(); const_iterator cbegin() const; iterator end(); const_iterator end() const; T &operator[](int); T &first(); };
template <class K, class V> class QMap { public: int size() const; V &operator[](const K &); int count(const K &) const; };
QList<int> a;
QList<int> &b = a << 1;
bool c = a.size();
bool d = !a.count();
QList<int>::const_iterator e = a.begin();
const QList<int>::const_iterator &f = a.begin();
struct S {
    bool g = a.size();
    QList<int> &h = a << 2;
    QList<int>::const_iterator i = a.begin();
    S() : j(a.count()) { }
    bool j;
};
void k(bool = a.size(), QList<int> & = a << 3, QList<int>::const_iterator = a.begin());
template <class T> bool l = a.size();
bool m = l<int>;
auto n = [o = bool(a.size())] { return o; };
auto p = [] { return a.size() ? true : bool(a.count()); };
int q = (a << 4, a[0]);
int r = a.first() + (a << 5 << 6).size();
QMap<int, int> s;
bool t = s.count(5);
int u = s[5];
void v() { k(); S w; }
