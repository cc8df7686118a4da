template<class T> class QVector { public: void append(const T&); };
class My : public QVector<int> { public: void append(); };
void f() { My m; for (int i = 0; i < 10; ++i) m.append(); }
