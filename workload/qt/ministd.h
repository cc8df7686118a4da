#ifndef MINISTD_H
#define MINISTD_H
// A stand-in for the parts of the C++ standard library the workload uses, small enough to be parsed in milliseconds.
typedef decltype(sizeof(0)) size_t;
typedef decltype((char *)0 - (char *)0) ptrdiff_t;
typedef long ssize_t;
typedef signed char int8_t;
typedef short int16_t;
typedef int int32_t;
typedef long int64_t;
typedef unsigned char uint8_t;
typedef unsigned short uint16_t;
typedef unsigned int uint32_t;
typedef unsigned long uint64_t;
typedef long intptr_t;
typedef unsigned long uintptr_t;
#define NULL __null
extern "C" {
void *malloc(size_t);
void free(void *);
char *getenv(const char *);
int putenv(char *);
int setenv(const char *, const char *, int);
int unsetenv(const char *);
int printf(const char *, ...);
int sprintf(char *, const char *, ...);
size_t strlen(const char *);
int strcmp(const char *, const char *);
void *memcpy(void *, const void *, size_t);
double floor(double);
double ceil(double);
double sqrt(double);
void abort();
int abs(int);
}
inline void *operator new(size_t, void *p) noexcept { return p; }
namespace std {
using ::size_t;
using ::ptrdiff_t;
using ::getenv;
using ::putenv;
using ::printf;
using ::abs;
typedef decltype(nullptr) nullptr_t;
template<typename T> class initializer_list {
    const T *b; size_t n;
    constexpr initializer_list(const T *x, size_t l) : b(x), n(l) {}
public:
    typedef T value_type; typedef const T *iterator; typedef const T *const_iterator;
    constexpr initializer_list() : b(nullptr), n(0) {}
    constexpr size_t size() const { return n; }
    constexpr const T *begin() const { return b; }
    constexpr const T *end() const { return b + n; }
};
template<typename T> struct remove_reference { typedef T type; };
template<typename T> struct remove_reference<T &> { typedef T type; };
template<typename T> struct remove_reference<T &&> { typedef T type; };
template<bool, typename T = void> struct enable_if {};
template<typename T> struct enable_if<true, T> { typedef T type; };
template<typename T, T V> struct integral_constant { static constexpr T value = V; };
typedef integral_constant<bool, true> true_type;
typedef integral_constant<bool, false> false_type;
template<typename A, typename B> struct is_same : false_type {};
template<typename A> struct is_same<A, A> : true_type {};
template<typename T> constexpr typename remove_reference<T>::type &&move(T &&t) noexcept { return static_cast<typename remove_reference<T>::type &&>(t); }
template<typename T> constexpr T &&forward(typename remove_reference<T>::type &t) noexcept { return static_cast<T &&>(t); }
template<typename T> constexpr const T &as_const(T &t) noexcept { return t; }
template<typename A, typename B = A> A exchange(A &, B &&);
template<typename T> T *addressof(T &);
template<typename T> struct add_pointer { typedef typename remove_reference<T>::type *type; };
template<typename T> using add_pointer_t = typename add_pointer<T>::type;
template<typename T> void swap(T &a, T &b) { T c = move(a); a = move(b); b = move(c); }
template<typename T> const T &min(const T &a, const T &b) { return b < a ? b : a; }
template<typename T> const T &max(const T &a, const T &b) { return a < b ? b : a; }
template<typename A, typename B> struct pair {
    A first; B second;
    pair() : first(), second() {}
    pair(const A &a, const B &b) : first(a), second(b) {}
    typedef A first_type; typedef B second_type;
};
template<typename A, typename B> pair<A, B> make_pair(A a, B b) { return pair<A, B>(a, b); }
template<typename A, typename B> bool operator<(const pair<A, B> &, const pair<A, B> &);
template<typename A, typename B> bool operator==(const pair<A, B> &, const pair<A, B> &);
template<typename It> struct reverse_iterator { It i; decltype(*It()) operator*() const; reverse_iterator &operator++(); bool operator!=(const reverse_iterator &) const; };
template<typename C> struct char_traits {};
template<typename T> struct allocator { allocator(); };
template<typename C, typename Tr = char_traits<C>, typename A = allocator<C>> class basic_string {
public:
    basic_string(); basic_string(const C *); basic_string(const basic_string &); basic_string(size_t, C); ~basic_string();
    basic_string &operator=(const basic_string &); basic_string &operator=(const C *);
    const C *c_str() const; const C *data() const; size_t size() const; size_t length() const; bool empty() const;
    C *begin(); C *end(); const C *begin() const; const C *end() const;
    C &operator[](size_t); const C &operator[](size_t) const; basic_string substr(size_t, size_t = 0) const;
    void push_back(C); void reserve(size_t); basic_string &operator+=(const basic_string &); basic_string &operator+=(const C *); basic_string &append(const C *);
    bool operator==(const basic_string &) const; bool operator<(const basic_string &) const; int compare(const C *) const;
    size_t find(const basic_string &, size_t = 0) const; static const size_t npos = -1;
};
typedef basic_string<char> string;
typedef basic_string<wchar_t> wstring;
template<typename C> basic_string<C> operator+(const basic_string<C> &, const basic_string<C> &);
string to_string(int);
template<typename C> class basic_string_view { public: basic_string_view(const C *); basic_string_view(const basic_string<C> &); size_t size() const; };
typedef basic_string_view<char> string_view;
template<typename T, typename A = allocator<T>> class vector {
public:
    typedef T value_type; typedef T *iterator; typedef const T *const_iterator; typedef size_t size_type;
    vector(); vector(size_t); vector(const vector &); vector(initializer_list<T>); template<typename It> vector(It, It); ~vector();
    vector &operator=(const vector &);
    iterator begin(); iterator end(); const_iterator begin() const; const_iterator end() const; const_iterator cbegin() const; const_iterator cend() const;
    void push_back(const T &); template<typename... X> T &emplace_back(X &&...); void reserve(size_t); void resize(size_t); size_t size() const; bool empty() const; void clear();
    T &operator[](size_t); const T &operator[](size_t) const; T &front(); T &back(); const T &front() const; T *data(); const T *data() const; T &at(size_t);
    iterator erase(const_iterator); iterator insert(const_iterator, const T &);
};
template<typename T> class list { public: typedef T value_type; typedef T *iterator; list(); list(initializer_list<T>); T *begin(); T *end(); const T *begin() const; const T *end() const; void push_back(const T &); size_t size() const; };
template<typename T, size_t N> class array { public: T d[N]; T *begin(); T *end(); const T *begin() const; const T *end() const; T &operator[](size_t); };
template<size_t N> class bitset { public: bitset(); bitset(unsigned long); bool operator[](size_t) const; };
template<typename K, typename V> class map { public: typedef pair<const K, V> value_type; typedef value_type *iterator; map(); map(initializer_list<value_type>); iterator begin(); iterator end(); const value_type *begin() const; const value_type *end() const; iterator find(const K &); V &operator[](const K &); pair<iterator, bool> insert(const value_type &); size_t count(const K &) const; size_t size() const; };
template<typename K, typename V> class unordered_map : public map<K, V> { public: using map<K, V>::map; };
template<typename K> class set { public: typedef const K *iterator; set(); set(initializer_list<K>); iterator begin() const; iterator end() const; void insert(const K &); iterator find(const K &) const; };
template<typename K> class unordered_set : public set<K> {};
template<typename T> struct default_delete { void operator()(T *) const; };
template<typename T, typename D = default_delete<T>> class unique_ptr { public: unique_ptr(); explicit unique_ptr(T *); unique_ptr(nullptr_t); unique_ptr(unique_ptr &&); unique_ptr(const unique_ptr &) = delete; ~unique_ptr(); T *get() const; T *operator->() const; T &operator*() const; explicit operator bool() const; T *release(); void reset(T * = nullptr); unique_ptr &operator=(unique_ptr &&); };
template<typename T> class shared_ptr { public: shared_ptr(); explicit shared_ptr(T *); shared_ptr(const shared_ptr &); shared_ptr(nullptr_t); ~shared_ptr(); T *get() const; T *operator->() const; T &operator*() const; explicit operator bool() const; void reset(); shared_ptr &operator=(const shared_ptr &); };
template<typename T> class weak_ptr { public: shared_ptr<T> lock() const; };
template<typename T, typename... A> unique_ptr<T> make_unique(A &&...);
template<typename T, typename... A> shared_ptr<T> make_shared(A &&...);
template<typename> class function;
template<typename R, typename... A> class function<R(A...)> { public: function(); template<typename F> function(F); R operator()(A...) const; explicit operator bool() const; };
template<typename T> class atomic { public: atomic(); atomic(T); operator T() const; T load() const; void store(T); T operator++(int); T operator=(T); };
template<typename T> class optional { public: optional(); optional(const T &); T &operator*(); explicit operator bool() const; bool has_value() const; T value() const; };
template<typename... T> class tuple { public: tuple(); tuple(const T &...); };
template<typename... T> bool operator<(const tuple<T...> &, const tuple<T...> &); template<typename... T> bool operator==(const tuple<T...> &, const tuple<T...> &);
template<typename... T> tuple<T...> make_tuple(T...);
template<typename... T> tuple<T &...> tie(T &...);
class mutex { public: mutex(); ~mutex(); void lock(); void unlock(); };
template<typename M> class lock_guard { public: explicit lock_guard(M &); ~lock_guard(); };
template<typename M> class unique_lock { public: explicit unique_lock(M &); ~unique_lock(); };
class thread { public: thread(); template<typename F> explicit thread(F); ~thread(); void join(); };
class exception { public: exception(); virtual ~exception(); virtual const char *what() const noexcept; };
class runtime_error : public exception { public: runtime_error(const char *); };
class ostream { public: ostream &operator<<(int); ostream &operator<<(const char *); ostream &operator<<(const string &); ostream &operator<<(ostream &(*)(ostream &)); };
extern ostream cout; extern ostream cerr;
ostream &endl(ostream &);
template<typename It, typename T> It find(It, It, const T &);
template<typename It, typename T> T accumulate(It, It, T);
template<typename It, typename F> void for_each(It, It, F);
template<typename It> void sort(It, It);
template<typename It, typename F> It remove_if(It, It, F);
template<typename It, typename T> It remove(It, It, const T &);
template<typename It, typename F> void sort(It, It, F);
template<typename A, typename B> B copy(A, A, B);
template<typename C> int back_inserter(C &);
namespace chrono {
template<long N, long D> struct r_ {};
template<typename R, typename P> class duration { public: constexpr duration() : v() {} template<typename X> constexpr explicit duration(X x) : v(x) {} template<typename R2, typename P2> constexpr duration(const duration<R2, P2> &); constexpr R count() const { return v; } R v; };
typedef duration<long, r_<1, 1000000000>> nanoseconds;
typedef duration<long, r_<1, 1000000>> microseconds;
typedef duration<long, r_<1, 1000>> milliseconds;
typedef duration<long, r_<1, 1>> seconds;
typedef duration<int, r_<60, 1>> minutes;
typedef duration<int, r_<3600, 1>> hours;
struct steady_clock { static long now(); };
}
inline namespace literals { inline namespace chrono_literals {
constexpr chrono::milliseconds operator""ms(unsigned long long v) { return chrono::milliseconds(v); }
constexpr chrono::seconds operator""s(unsigned long long v) { return chrono::seconds(v); }
constexpr chrono::hours operator""h(unsigned long long v) { return chrono::hours(v); }
constexpr chrono::minutes operator""min(unsigned long long v) { return chrono::minutes(v); }
} }
namespace chrono { using namespace literals::chrono_literals; }
namespace chrono_literals = literals::chrono_literals;
}
#endif
