// LD_PRELOAD: the file named by SHIM_ETC is found where the system-wide configuration is looked for.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static FILE *(*real_fopen)(const char *, const char *);
static int (*real_open)(const char *, int, ...);
static int (*real_openat)(int, const char *, int, ...);
static const char *etc;

// looked up before any sandbox is entered
__attribute__((constructor)) static void start(void) {
    real_fopen = (FILE *(*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen");
    real_open = (int (*)(const char *, int, ...)) dlsym(RTLD_NEXT, "open");
    real_openat = (int (*)(int, const char *, int, ...)) dlsym(RTLD_NEXT, "openat");
    etc = getenv("SHIM_ETC");
}

static const char *place(const char *path) {
    return etc && path && !strcmp(path, "/etc/passgen.conf") ? etc : path;
}

#define MODE(flags)                                \
    mode_t mode = 0;                               \
    if((flags) & (O_CREAT | __O_TMPFILE)) {        \
        va_list ap;                                \
        va_start(ap, flags);                       \
        mode = va_arg(ap, mode_t);                 \
        va_end(ap);                                \
    }

FILE *fopen(const char *path, const char *how) { return real_fopen(place(path), how); }
FILE *fopen64(const char *path, const char *how) { return real_fopen(place(path), how); }
int open(const char *path, int flags, ...) { MODE(flags) return real_open(place(path), flags, mode); }
int open64(const char *path, int flags, ...) { MODE(flags) return real_open(place(path), flags | O_LARGEFILE, mode); }
int openat(int at, const char *path, int flags, ...) { MODE(flags) return real_openat(at, place(path), flags, mode); }
int openat64(int at, const char *path, int flags, ...) { MODE(flags) return real_openat(at, place(path), flags | O_LARGEFILE, mode); }
