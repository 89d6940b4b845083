/* pre-included to build the NetBSD back end on this host: all system headers first, then pretend */
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <errno.h>
#include <limits.h>
#include <unistd.h>
#include <sys/types.h>
#include <sys/random.h>
#undef __linux__
#undef linux
#define __NetBSD__ 1
