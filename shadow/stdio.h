#include_next <stdio.h>
#ifdef __cplusplus
#include <cstdio>
#endif
