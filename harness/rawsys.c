/* The random-byte function as built on a C library without getrandom(): it makes the system call itself. */
#define _GNU_SOURCE
#include <assert.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <limits.h>
#include <sys/ioctl.h>
#include <sys/param.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>
#undef __GLIBC__
#undef __GLIBC_MINOR__
#define randombytes vs_randombytes
#include "random/randombytes.c"
