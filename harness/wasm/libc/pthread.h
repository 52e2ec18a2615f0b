#pragma once
/* one thread */
typedef int pthread_mutex_t, pthread_once_t; typedef struct { int x; } pthread_mutexattr_t;
#define PTHREAD_MUTEX_INITIALIZER 0
#define PTHREAD_ONCE_INIT 0
static inline int pthread_mutex_lock(pthread_mutex_t *m) { (void)m; return 0; } static inline int pthread_mutex_unlock(pthread_mutex_t *m) { (void)m; return 0; } static inline int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { (void)m; (void)a; return 0; } static inline int pthread_mutex_destroy(pthread_mutex_t *m) { (void)m; return 0; }
static inline int pthread_once(pthread_once_t *o, void (*f)(void)) { if (!*o) { *o = 1; f(); } return 0; }
