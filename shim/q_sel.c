#define my_queue_mb_ops my_queue_sel_mb_ops
#define my_queue_mutex_ops my_queue_sel_mutex_ops
#include "libmy/my_queue.c"
