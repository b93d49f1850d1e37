/* the queue implementations, with every copy of an item going through pq_memcpy (an interleaving point) */
#include <string.h>
#include <pthread.h>
void *pq_memcpy(void *, const void *, size_t);
int pq_lock(pthread_mutex_t *); int pq_unlock(pthread_mutex_t *);
#define memcpy pq_memcpy
#include "libmy/my_queue_mb.c"
