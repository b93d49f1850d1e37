#include <string.h>
#include <pthread.h>
void *pq_memcpy(void *, const void *, size_t);
int pq_lock(pthread_mutex_t *); int pq_unlock(pthread_mutex_t *);
#define memcpy pq_memcpy
#define pthread_mutex_lock pq_lock
#define pthread_mutex_unlock pq_unlock
#include "libmy/my_queue_mutex.c"
