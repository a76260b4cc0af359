#include <stddef.h>
typedef long time_t; typedef long clock_t;
