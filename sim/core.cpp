// The deterministic simulator. Built without instrumentation; replaces libc's threads, clocks, sockets and files.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdio_ext.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <exception>
#include <functional>
#include <iostream>
#include <map>
#include <new>
#include <string>
#include <typeinfo>
#include <unordered_map>
#include <vector>
#include "sim.h"

#include "core_a.inc"
#include "core_b.inc"
#include "core_c.inc"
#include "core_d.inc"
#include "core_e.inc"
#include "core_f.inc"
