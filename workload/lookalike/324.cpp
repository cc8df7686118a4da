template <int N, class T> class QMap {}; template <long N, class T> class QHash {}; template <template <class> class N, class T> class map {}; template<class...> struct QCache{}; template <class> struct V {};
template <int N> class QVector {}; template <auto f> class QList {}; template <int N> class QVariant { public: template <int M> int value(); template <class... T> int toX(); };
template <int N> struct QGlobalStatic { QGlobalStatic(); }; 
template <typename T> struct QTypeInfo; template <int N> struct QPair{};
QMap<5, int> a; QHash<77, int> b; map<V, int> c; QCache<int,int> d; QVector<3> e; QList<nullptr> f; QGlobalStatic<4> g; 
void q() { QVariant<2> v; v.value<3>(); v.template toX<int,int>(); QMap<5,int> l; QHash<9,int> m; for (;;) { QVector<7> k; QList<3> j; } }
#define Q_OBJECT
#define signals public
#define slots
template <template <class> class C, int N> struct Foo {};
class QObject { public: QObject(QObject* =nullptr); };
namespace N { template <class> struct Q{}; enum E{A};
class S : public QObject { Q_OBJECT
signals: void a(Foo<V,3>); void b(Foo<Q,3>); Foo<Q,E::A> c(QMap<5, E>);
public slots: void d(const QMap<3,Foo<Q,2>> &); }; }
