#include <unistd.h>
#include <cstdlib>
extern "C" void __gcov_dump(void);
#define _exit(x) (__gcov_dump(), _exit(x))
