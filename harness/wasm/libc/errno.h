#pragma once
extern int errno;
#define EINTR 4
#define EIO 5
#define EAGAIN 11
#define EINVAL 22
#define ENOSYS 52
#define EPERM 63
#define ENOMEM 48
#define EFAULT 21
#define ERANGE 68
#define E2BIG 1
#define EBADF 8
