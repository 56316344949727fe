// LD_PRELOAD: a getrandom() that delivers a known stream and fails on demand.
#include <errno.h>
#include <stdint.h>
#include <stdlib.h>
#include <sys/types.h>

static uint64_t pos, calls;

static uint64_t number(const char *name, uint64_t otherwise) {
    const char *s = getenv(name);
    return s ? strtoull(s, NULL, 10) : otherwise;
}

static uint8_t stream(uint64_t seed, uint64_t p) {
    uint64_t z = seed + (p / 8 + 1) * 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    z = z ^ (z >> 31);
    return (uint8_t) (z >> (8 * (p % 8)));
}

// One allocation fails on demand, the SHIM_ALLOC-th or all from there on.
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);

static int refused(void) {
    static uint64_t count, when = UINT64_MAX;
    static int known, all;
    if(!known) {
        when = number("SHIM_ALLOC", UINT64_MAX);
        all = number("SHIM_ALLOC_ALL", 0);
        known = 1;
    }
    if(when == UINT64_MAX) return 0;
    count++;
    if(count == when || (all && count > when)) {
        errno = ENOMEM;
        return 1;
    }
    return 0;
}

void *malloc(size_t n) { return refused() ? NULL : __libc_malloc(n); }
void *calloc(size_t a, size_t b) { return refused() ? NULL : __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { return refused() ? NULL : __libc_realloc(p, n); }

ssize_t getrandom(void *buf, size_t size, unsigned int flags) {
    (void) flags;
    uint64_t seed = number("SHIM_SEED", 1);
    uint64_t when = number("SHIM_CALL", UINT64_MAX);
    size_t n = size;
    if(calls == when || (calls > when && number("SHIM_FOREVER", 0))) {
        calls++;
        switch(number("SHIM_MODE", 0)) {
            case 0: {
                size_t k = number("SHIM_SHORT", 0);
                n = k < size ? k : size - 1;
                break;
            }
            case 1: errno = EINTR; return -1;
            case 2: errno = EIO; return -1;
            case 3: errno = ENOSYS; return -1;
            case 4: errno = EAGAIN; return -1;
            default: return 0;
        }
    } else {
        calls++;
    }
    for(size_t i = 0; i < n; i++) ((uint8_t *) buf)[i] = stream(seed, pos + i);
    pos += n;
    return n;
}
