/* included in front of every source of the instrumented copy: prefetches reach the cache too */
#ifndef VS_TRACE_PRE
#define VS_TRACE_PRE
#ifndef __cplusplus
extern void vs_prefetch(const void *);
#define __builtin_prefetch(p, ...) vs_prefetch((const void *)(p))
#endif
#endif
