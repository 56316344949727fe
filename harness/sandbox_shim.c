// LD_PRELOAD: makes the tool attempt system calls at a chosen moment, as a
// hijacked process would.
//
// SHIM_STAGE  conf (a configuration file is opened), option (k-th look at the
//             options), malloc (k-th allocation since then), random (k-th read
//             of randomness), exit
// SHIM_K      k
// SHIM_CALLS  calls separated by ';': number,argument,... where an argument is
//             a number, pN (string SHIM_PN), b (buffer of zeroes), r (result
//             of the call before), t (a zeroed timespec); a leading f marks
//             those that return twice, a leading i uses the 32-bit entry; "s" stores to where the last result points
//
// Writes ATTEMPT to stderr before the first call and SURVIVED after the last.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <getopt.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <unistd.h>
#include <sys/syscall.h>

void *__libc_malloc(size_t n);

static int stage, want, armed, done, option_count, random_count;
static long malloc_count;
static char calls[2000];
static char strings[10][600];
static char buffer[8192];
static FILE *(*real_fopen)(const char *, const char *);
static int (*real_getopt)(int, char *const *, const char *, const struct option *, int *);
static ssize_t (*real_getrandom)(void *, size_t, unsigned int);

__attribute__((constructor)) static void begin(void) {
    const char *s = getenv("SHIM_STAGE");
    if(!s) return;
    stage = *s;
    want = atoi(getenv("SHIM_K"));
    strncpy(calls, getenv("SHIM_CALLS"), sizeof(calls) - 1);
    for(int i = 0; i < 10; i++) {
        char name[] = "SHIM_P0";
        name[6] = '0' + i;
        const char *v = getenv(name);
        if(v) strncpy(strings[i], v, sizeof(strings[i]) - 1);
    }
    real_fopen = dlsym(RTLD_NEXT, "fopen");
    real_getopt = dlsym(RTLD_NEXT, "getopt_long");
    real_getrandom = dlsym(RTLD_NEXT, "getrandom");
}

static long raw(long nr, const long *a) {
    register long r10 __asm__("r10") = a[3];
    register long r8 __asm__("r8") = a[4];
    register long r9 __asm__("r9") = a[5];
    long ret;
    __asm__ volatile("syscall"
                     : "=a"(ret)
                     : "a"(nr), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return ret;
}

static long raw32(long nr, const long *a) {
    long ret;
    __asm__ volatile("push %%rbx\n mov %2, %%ebx\n int $0x80\n pop %%rbx\n"
                     : "=a"(ret)
                     : "a"(nr), "r"((int) a[0]), "c"(a[1]), "d"(a[2])
                     : "memory", "r8", "r9", "r10", "r11");
    return ret;
}

static void say(const char *s) {
    long a[6] = {2, (long) s, (long) strlen(s)};
    raw(SYS_write, a);
}

static void attempt(void) {
    if(done || !stage) return;
    done = 1;
    say("ATTEMPT\n");
    long result = 0;
    char *p = calls;
    while(*p) {
        if(*p == 's') {
            if(result > 0) *(volatile char *) result = 'X';
            p++;
        } else {
            int child = *p == 'f'; // returns zero in another process
            if(child) p++;
            int compat = *p == 'i';
            if(compat) p++;
            long nr = strtol(p, &p, 0);
            long a[6] = {0};
            for(int i = 0; i < 6 && *p == ','; i++) {
                p++;
                if(*p == 'p') {
                    a[i] = (long) strings[p[1] - '0'];
                    p += 2;
                } else if(*p == 'b' || *p == 't') {
                    a[i] = (long) buffer;
                    p++;
                } else if(*p == 'r') {
                    a[i] = result;
                    p++;
                } else if(*p == 'v') { // argument vector of one string
                    static char *vec[2];
                    vec[0] = strings[0];
                    a[i] = (long) vec;
                    p++;
                } else {
                    a[i] = (long) strtoll(p, &p, 0);
                }
            }
            result = compat ? raw32(nr, a) : raw(nr, a);
            if(child && result == 0) {
                a[0] = 0;
                raw(SYS_exit_group, a);
            }
        }
        if(*p == ';') p++;
    }
    say("SURVIVED\n");
    long a[6] = {0};
    raw(SYS_exit_group, a);
}

__attribute__((destructor)) static void finish(void) { attempt(); }

FILE *fopen(const char *path, const char *mode) {
    if(!real_fopen) real_fopen = dlsym(RTLD_NEXT, "fopen");
    size_t n = strlen(path);
    if(n > 12 && strcmp(path + n - 12, "passgen.conf") == 0) {
        armed = 1;
        if(stage == 'c') attempt();
    }
    return real_fopen(path, mode);
}

int getopt_long(int argc, char *const *argv, const char *s, const struct option *o, int *i) {
    if(!real_getopt) real_getopt = dlsym(RTLD_NEXT, "getopt_long");
    armed = 1;
    if(stage == 'o' && option_count++ >= want) attempt();
    return real_getopt(argc, argv, s, o, i);
}

void *malloc(size_t n) {
    if(armed && stage == 'm' && !done && malloc_count++ >= want) attempt();
    return __libc_malloc(n);
}

ssize_t getrandom(void *p, size_t n, unsigned int flags) {
    if(!real_getrandom) real_getrandom = dlsym(RTLD_NEXT, "getrandom");
    if(stage == 'r' && random_count++ >= want) attempt();
    return real_getrandom(p, n, flags);
}
