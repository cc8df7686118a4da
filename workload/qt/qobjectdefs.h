#define signals public
#define slots
#define emit
