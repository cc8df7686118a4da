#define FOO(X) ::X
