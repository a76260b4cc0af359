#include <stdint.h>
#define PRId64 "lld"
#define PRIu64 "llu"
#define PRId32 "d"
#define PRIu32 "u"
