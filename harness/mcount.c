/* Called on entry of every function of an instrumented build (rustc -Zinstrument-mcount): the
   scheduling points of the "stepped" explorer. Off unless the running thread has switched it on. */
#include <string.h>

/* 2: deals with state threads can share; 1: code under test; 0: anything else */
int mc_classify(const char *name)
{
    /* (thread locals are not shared; jobs on one thread are interleaved elsewhere) */
    static const char *const shared[] = { "4sync", "..sync..", "atomic", "lazy_static", "once_cell", "LazyLock", "LazyCell", "OnceLock", "OnceCell", 0 };
    if (strstr(name, "thread_local"))
        return strstr(name, "librezip") != 0;
    for (int i = 0; shared[i]; i++)
        if (strstr(name, shared[i]))
            return 2;
    return strstr(name, "librezip") != 0;
}

/* one entry per byte of the program text: class (0 no point, 1 code under test, 2 shared state) * 16384 + a number per function */
static unsigned short *mc_class;
static unsigned long mc_base, mc_len;
static __thread int mc_on, mc_min;
static __thread unsigned long mc_count, mc_stop;
static __thread unsigned mc_most; /* entries of one function that are points; 0: all */
static __thread unsigned mc_seen[16384];
extern void rvmc_switch(void) __attribute__((weak)); /* (build scripts are linked with this file too) */

void mcount(void)
{
    if (!mc_on)
        return;
    unsigned long at = (unsigned long)__builtin_return_address(0) - mc_base;
    if (at >= mc_len || (mc_class[at] >> 14) < mc_min)
        return;
    if (mc_most && mc_seen[mc_class[at] & 16383]++ >= mc_most)
        return;
    if (++mc_count != mc_stop)
        return;
    mc_on = 0;
    rvmc_switch();
    mc_on = 1;
}
void mc_setup(unsigned short *classes, unsigned long base, unsigned long len) { mc_class = classes; mc_base = base; mc_len = len; }
void mc_begin(int min, unsigned most, unsigned long stop) { mc_min = min; mc_most = most; memset(mc_seen, 0, sizeof mc_seen); mc_count = 0; mc_stop = stop; mc_on = 1; }
void mc_again(unsigned long stop) { mc_stop = stop; }
unsigned long mc_end(void) { mc_on = 0; return mc_count; }
