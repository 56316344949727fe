// Command server around libpassgen's public API. Reads length-prefixed binary
// requests on fd 0 and writes length-prefixed replies on fd 1. All generation,
// shrinking and judging happens in the Python driver; this program only calls
// the library and reports what it observed.
#define _GNU_SOURCE
#ifdef VERIF_OOM
// the library was compiled to call vf_malloc and so on; this program is not
#undef malloc
#undef calloc
#undef realloc
#endif
#include <errno.h>
#include <pthread.h>
#include <signal.h>
#include <stdbool.h>
#include <stdint.h>
#include <fcntl.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <passgen/config.h>
#include <passgen/container/array.h>
#include <passgen/container/hashmap.h>
#include <passgen/container/stack.h>
#include <passgen/context.h>
#include <passgen/generate.h>
#include <passgen/markov.h>
#include <passgen/monocypher.h>
#include <passgen/parser/parser.h>
#include <passgen/parser/token.h>
#include <passgen/passgen.h>
#include <passgen/pattern/env.h>
#include <passgen/pattern/pattern.h>
#include <passgen/random.h>
#include <passgen/util/siphash.h>
#include <passgen/util/utf8.h>
#include <passgen/version.h>
#include <passgen/wordlist.h>

#define EXIT_HANG     97
#define EXIT_BUDGET   96
#define EXIT_PROTOCOL 95

// ---------------------------------------------------------------- reply/request
typedef struct {
    uint8_t *data;
    size_t len, cap;
} obuf;

static obuf out;
static volatile int own_free;

static void o_raw(const void *p, size_t n) {
    if(out.len + n > out.cap) {
        out.cap = (out.len + n) * 2 + 64;
        own_free++;
        out.data = realloc(out.data, out.cap);
        own_free--;
        if(!out.data) _exit(EXIT_PROTOCOL);
    }
    if(n) memcpy(out.data + out.len, p, n);
    out.len += n;
}
static void o_u8(uint8_t v) { o_raw(&v, 1); }
static void o_u32(uint32_t v) { o_raw(&v, 4); }
static void o_u64(uint64_t v) { o_raw(&v, 8); }
static void o_f64(double v) { o_raw(&v, 8); }
static void o_bytes(const void *p, size_t n) {
    o_u32((uint32_t) n);
    o_raw(p, n);
}
static void o_str(const char *s) { o_bytes(s ? s : "", s ? strlen(s) : 0); }

static const uint8_t *in_p, *in_end;
static const uint8_t *i_raw(size_t n) {
    if((size_t) (in_end - in_p) < n) _exit(EXIT_PROTOCOL);
    const uint8_t *r = in_p;
    in_p += n;
    return r;
}
static uint8_t i_u8(void) { return *i_raw(1); }
static uint32_t i_u32(void) {
    uint32_t v;
    memcpy(&v, i_raw(4), 4);
    return v;
}
static uint64_t i_u64(void) {
    uint64_t v;
    memcpy(&v, i_raw(8), 8);
    return v;
}
static const uint8_t *i_bytes(size_t *n) {
    *n = i_u32();
    return i_raw(*n);
}
// exact-size heap copy, so that a sanitizer sees any over-read
static char *i_cstr(void) {
    size_t n;
    const uint8_t *p = i_bytes(&n);
    char *s = malloc(n + 1);
    memcpy(s, p, n);
    s[n] = 0;
    return s;
}
static void *i_copy(size_t *n) {
    const uint8_t *p = i_bytes(n);
    void *s = malloc(*n ? *n : 1);
    memcpy(s, p, *n);
    return s;
}

// ------------------------------------------------------- refused allocations
static uint64_t vf_count, vf_at;
static int vf_all, vf_hit;
#ifdef VERIF_OOM
static bool vf_refuse(void) {
    vf_count++;
    if(vf_at && (vf_count == vf_at || (vf_all && vf_count > vf_at))) {
        vf_hit = 1;
        errno = ENOMEM;
        return true;
    }
    return false;
}
void *vf_malloc(size_t n) { return vf_refuse() ? NULL : malloc(n); }
void *vf_calloc(size_t a, size_t b) { return vf_refuse() ? NULL : calloc(a, b); }
void *vf_realloc(void *p, size_t n) { return vf_refuse() ? NULL : realloc(p, n); }
#endif

// ------------------------------------------------------------- heap accounting
static int64_t live_allocs;
static int counting;
// secrets searched for in every block that is freed
static uint8_t needles[64][16];
static size_t needle_len[64];
static volatile size_t needle_count;
static volatile uint64_t needle_hits;

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#endif
#if __has_feature(memory_sanitizer) || __has_feature(thread_sanitizer)
#define OTHER_SAN 1
#endif
#endif

// set while this program itself, not the library, gives memory back
static volatile int own_free;

__attribute__((no_sanitize("address"))) static void
scan_block(const uint8_t *b, size_t n) {
    for(size_t k = 0; k < needle_count; k++) {
        size_t m = needle_len[k];
        for(size_t i = 0; i + m <= n; i++) {
            if(b[i] != needles[k][0]) continue;
            size_t j = 0;
            while(j < m && b[i + j] == needles[k][j]) j++;
            if(j == m) {
                needle_hits++;
                break;
            }
        }
    }
}

static void own_release(void *p) {
    own_free++;
    free(p);
    own_free--;
}
static void *own_resize(void *p, size_t n) {
    own_free++;
    p = realloc(p, n);
    own_free--;
    return p;
}
#ifdef HAVE_ASAN
int __sanitizer_install_malloc_and_free_hooks(
    void (*malloc_hook)(const volatile void *, size_t),
    void (*free_hook)(const volatile void *));
size_t __sanitizer_get_allocated_size(const volatile void *p);
static void hook_malloc(const volatile void *p, size_t n) {
    (void) n;
    if(p && counting) live_allocs++;
}
static void hook_free(const volatile void *p) {
    if(!p) return;
    if(counting) live_allocs--;
    if(needle_count && !own_free) {
        scan_block((const uint8_t *) p, __sanitizer_get_allocated_size(p));
    }
}
#elif defined(__GLIBC__) && !defined(OTHER_SAN)
// without a sanitizer: every block the library frees passes through here
void __libc_free(void *p);
size_t malloc_usable_size(void *p);
void free(void *p) {
    if(p && needle_count && !own_free) {
        scan_block(p, malloc_usable_size(p));
    }
    __libc_free(p);
}
#endif

// ------------------------------------------------------------ scripted sources
typedef struct {
    uint8_t *script;
    size_t script_len;
    uint64_t seed;
    uint64_t total;      // bytes handed out
    uint64_t fail_after; // UINT64_MAX: never
    uint8_t fail_mode;   // 1: short read, 2: nothing, 3: (size_t) -1
    uint64_t budget;
    uint64_t calls;
    uint64_t closed;
} scripted;

static scripted *last_scripted;

static uint64_t scripted_word(scripted *s, uint64_t index) {
    uint64_t z = s->seed + (index + 1) * 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

static uint8_t scripted_byte(scripted *s, uint64_t pos) {
    if(pos < s->script_len) return s->script[pos];
    pos -= s->script_len;
    return (uint8_t) (scripted_word(s, pos / 8) >> (8 * (pos % 8)));
}

static size_t scripted_read(void *ctx, void *dest, size_t size) {
    scripted *s = ctx;
    s->calls++;
    uint64_t avail = UINT64_MAX;
    if(s->fail_mode) {
        avail = s->fail_after > s->total ? s->fail_after - s->total : 0;
    }
    size_t n = size;
    if(avail < size) {
        if(s->fail_mode == 2) return 0;
        if(s->fail_mode == 3) return (size_t) -1;
        n = avail;
    }
    for(size_t i = 0; i < n;) {
        uint64_t at = s->total + i;
        if(at >= s->script_len && (at - s->script_len) % 8 == 0 && i + 8 <= n) {
            uint64_t v = scripted_word(s, (at - s->script_len) / 8);
            memcpy((uint8_t *) dest + i, &v, 8);
            i += 8;
            continue;
        }
        ((uint8_t *) dest)[i++] = scripted_byte(s, at);
    }
    s->total += n;
    if(s->total > s->budget) _exit(EXIT_BUDGET);
    return n;
}

static void scripted_close(void *ctx) {
    scripted *s = ctx;
    if(last_scripted == s) last_scripted = NULL;
    own_release(s->script);
    own_release(s);
}

// returns NULL when the library refused to open the source
static passgen_random *open_random(passgen_random *random) {
    uint8_t kind = i_u8();
    size_t n;
    switch(kind) {
        case 0: {
            scripted *s = calloc(1, sizeof(*s));
            s->script = i_copy(&s->script_len);
            s->seed = i_u64();
            s->fail_mode = i_u8();
            s->fail_after = i_u64();
            s->budget = 256u << 20;
            if(!random) random = malloc(sizeof(*random));
            random->context = s;
            random->read = scripted_read;
            random->close = scripted_close;
            last_scripted = s;
            passgen_random_reload(random);
            return random;
        }
        case 1: {
            char *desc = i_cstr();
            random = passgen_random_open(random, desc);
            own_release(desc);
            return random;
        }
        case 2: {
            uint8_t *key = i_copy(&n);
            uint8_t *iv = i_copy(&n);
            random = passgen_random_chacha20_open(random, key, iv);
            own_release(key);
            own_release(iv);
            return random;
        }
        case 3: {
            uint8_t flags = i_u8();
            char *pass = i_cstr(), *dom = i_cstr(), *tok = i_cstr();
            passgen_argon2_config config, *config_ptr = NULL;
            if(flags & 4) {
                config.algorithm = i_u32();
                config.nb_blocks = i_u32();
                config.nb_passes = i_u32();
                config.nb_lanes = i_u32();
                config_ptr = &config;
            }
            random = passgen_random_chacha20_argon2_open(
                random,
                (uint8_t *) pass,
                flags & 1 ? (uint8_t *) dom : NULL,
                flags & 2 ? (uint8_t *) tok : NULL,
                config_ptr);
            memset(&config, 0xa5, sizeof(config));
            own_release(pass);
            own_release(dom);
            own_release(tok);
            return random;
        }
        case 4:
            return passgen_random_xorshift_open(random, i_u64());
        case 5: {
            const uint8_t *p = i_bytes(&n);
            FILE *f = tmpfile();
            fwrite(p, 1, n, f);
            rewind(f);
            return passgen_random_file_open(random, f);
        }
        case 6:
            return passgen_random_zero_open(random);
        case 7:
            return passgen_random_system_open(random);
        default:
            _exit(EXIT_PROTOCOL);
    }
}

static FILE *content_file(const uint8_t *p, size_t n) {
    FILE *f = tmpfile();
    if(!f) _exit(EXIT_PROTOCOL);
    if(n) fwrite(p, 1, n, f);
    rewind(f);
    return f;
}

static void add_wordlists(passgen_env *env) {
    uint32_t n = i_u32();
    for(uint32_t i = 0; i < n; i++) {
        char *name = i_cstr();
        size_t len;
        const uint8_t *p = i_bytes(&len);
        uint32_t level = i_u32();
        passgen_env_wordlist_add(env, name, content_file(p, len), level);
    }
}

// ------------------------------------------------------------------- generation
typedef struct {
    uint32_t *cps;
    size_t len, cap, limit;
} emitted;

static int emit_cb(void *data, uint32_t cp) {
    emitted *e = data;
    if(e->len >= e->limit) return 55;
    if(e->len == e->cap) {
        e->cap = e->cap ? e->cap * 2 : 64;
        e->cps = own_resize(e->cps, e->cap * 4);
    }
    e->cps[e->len++] = cp;
    return 0;
}

// mode 0 callback, 1 unicode, 2 utf8, 3 json
static void do_gen(
    const passgen_pattern *pattern,
    passgen_env *env,
    uint8_t mode,
    uint32_t buflen,
    bool want_entropy) {
    double entropy = -7.0;
    double *ep = want_entropy ? &entropy : NULL;
    if(mode == 0) {
        emitted e = {.limit = buflen};
        int ret = passgen_generate(pattern, env, ep, &e, emit_cb);
        o_u64((uint64_t) (int64_t) ret);
        o_f64(entropy);
        o_bytes(e.cps, e.len * 4);
        own_release(e.cps);
    } else if(mode == 1) {
        uint32_t *b = malloc(buflen * 4 + (buflen == 0));
        memset(b, 0xA5, buflen * 4);
        size_t n = passgen_generate_fill_unicode(pattern, env, ep, b, buflen);
        o_u64(n);
        o_f64(entropy);
        o_bytes(b, (n > buflen ? buflen : n) * 4);
        own_release(b);
    } else {
        uint8_t *b = malloc(buflen + (buflen == 0));
        memset(b, 0xA5, buflen);
        size_t n = mode == 2
                       ? passgen_generate_fill_utf8(pattern, env, ep, b, buflen)
                       : passgen_generate_fill_json_utf8(
                             pattern,
                             env,
                             ep,
                             b,
                             buflen);
        o_u64(n);
        o_f64(entropy);
        o_bytes(b, n > buflen ? buflen : n);
        own_release(b);
    }
}

static void report_error(passgen_error *error) {
    o_str(error->message);
    o_u64(error->offset.codepoint);
    o_u64(error->offset.byte);
}

static void cmd_gen(void) {
    char *pattern_str = i_cstr();
    uint32_t depth = i_u32();
    passgen_pattern pattern;
    passgen_error error;
    memset(&error, 0, sizeof(error));
    live_allocs = 0;
    counting = 1;
    int ret = passgen_parse(&pattern, &error, pattern_str);
    o_u8(ret != 0);
    if(ret != 0) {
        report_error(&error);
        passgen_pattern_free(&pattern);
        passgen_error_free(&error);
        counting = 0;
        o_u64((uint64_t) live_allocs);
        own_release(pattern_str);
        return;
    }
    passgen_env env;
    passgen_env_init(&env, NULL);
    if(depth >= 0xffffff00 && depth != UINT32_MAX) {
        // limits beyond 32 bits: a power of two and what is next to it
        uint32_t bits = (depth & 0xff) / 3 % 65;
        env.depth_limit = (bits == 64 ? 0 : (uint64_t) 1 << bits) + (uint64_t) ((depth & 0xff) % 3) - 1;
    } else if(depth != UINT32_MAX) env.depth_limit = depth;
    counting = 0; // our own tmpfile()/strings for wordlists
    add_wordlists(&env);
    passgen_random *random = open_random(NULL);
    env.random = random;
    if(!random) {
        o_u8(1);
        passgen_env_free(&env);
        passgen_pattern_free(&pattern);
        own_release(pattern_str);
        return;
    }
    o_u8(0);
    uint32_t n = i_u32();
    uint8_t mode = i_u8();
    uint32_t buflen = i_u32();
    uint8_t ent = i_u8();
    for(uint32_t i = 0; i < n; i++) {
        do_gen(&pattern, &env, mode, buflen, ent);
    }
    o_u64(last_scripted ? last_scripted->total - 1024 + random->pos : 0);
    passgen_env_free(&env);
    counting = 1;
    passgen_pattern_free(&pattern);
    counting = 0;
    own_release(pattern_str);
}

// counts of very many outputs, and of pairs of successive outputs
#define TALLY_SLOTS (1u << 19)
#define TALLY_MOST  (1u << 17)
#define TALLY_PAIRS 24
typedef struct {
    uint32_t *cps;
    uint32_t len, count, index;
} tally;

static void cmd_tally(void) {
    char *pattern_str = i_cstr();
    passgen_pattern pattern;
    passgen_error error;
    memset(&error, 0, sizeof(error));
    if(passgen_parse(&pattern, &error, pattern_str) != 0) {
        passgen_pattern_free(&pattern);
        passgen_error_free(&error);
        own_release(pattern_str);
        o_u8(1);
        return;
    }
    passgen_env env;
    passgen_env_init(&env, NULL);
    add_wordlists(&env);
    passgen_random *random = open_random(NULL);
    env.random = random;
    if(last_scripted) last_scripted->budget = (uint64_t) 2 << 30;
    uint32_t n = i_u32();
    tally *slots = calloc(TALLY_SLOTS, sizeof(*slots));
    uint32_t *order = malloc(TALLY_MOST * sizeof(*order));
    uint32_t pairs[TALLY_PAIRS][TALLY_PAIRS] = {{0}};
    uint32_t distinct = 0, last = UINT32_MAX;
    uint8_t bad = 0;
    emitted e = {.limit = 1u << 16};
    for(uint32_t i = 0; i < n && !bad; i++) {
        e.len = 0;
        if(passgen_generate(&pattern, &env, NULL, &e, emit_cb) != 0) {
            bad = 2;
            break;
        }
        uint64_t h = 1469598103934665603u;
        for(size_t k = 0; k < e.len; k++) h = (h ^ e.cps[k]) * 1099511628211u;
        h ^= h >> 31;
        for(;; h++) {
            tally *t = &slots[h % TALLY_SLOTS];
            if(!t->count) {
                if(distinct == TALLY_MOST) {
                    bad = 3;
                    break;
                }
                t->cps = malloc(e.len * 4 + 1);
                if(e.len) memcpy(t->cps, e.cps, e.len * 4);
                t->len = e.len;
                t->index = distinct;
                order[distinct++] = h % TALLY_SLOTS;
            } else if(
                t->len != e.len ||
                (e.len && memcmp(t->cps, e.cps, e.len * 4) != 0)) {
                continue;
            }
            t->count++;
            if(last < TALLY_PAIRS && t->index < TALLY_PAIRS)
                pairs[last][t->index]++;
            last = t->index;
            break;
        }
    }
    o_u8(bad);
    o_u32(distinct);
    for(uint32_t i = 0; i < distinct; i++) {
        tally *t = &slots[order[i]];
        o_bytes(t->cps, t->len * 4);
        o_u32(t->count);
        free(t->cps);
    }
    uint32_t side = distinct < TALLY_PAIRS ? distinct : TALLY_PAIRS;
    for(uint32_t i = 0; i < side; i++) o_raw(pairs[i], side * 4);
    free(slots);
    free(order);
    own_release(e.cps);
    passgen_env_free(&env);
    passgen_pattern_free(&pattern);
    own_release(pattern_str);
}

// leak probe: the full life cycle under heap accounting
static size_t open_files(void) {
    // the sanitizer's own thread has a file open now and then
    size_t least = 1024;
    for(int i = 0; i < 4; i++) {
        size_t n = 0;
        for(int fd = 0; fd < 1024; fd++) n += fcntl(fd, F_GETFD) != -1;
        if(n < least) least = n;
        sched_yield();
    }
    return least;
}

// the life of an environment: lists are added, replaced, used or not
static void cmd_env_life(void) {
    char *pattern_str = i_cstr();
    uint32_t outputs = i_u32(), limit = i_u32();
    uint64_t seed = i_u64();
    size_t files = open_files();
    fclose(tmpfile());
    live_allocs = 0;
    counting = 1;
    passgen_env env;
    passgen_env_init(&env, passgen_random_xorshift_open(NULL, seed | 1));
    add_wordlists(&env);
    passgen_pattern pattern;
    passgen_error error;
    memset(&error, 0, sizeof(error));
    uint32_t good = 0;
    if(passgen_parse(&pattern, &error, pattern_str) == 0) {
        for(uint32_t i = 0; i < outputs; i++) {
            uint8_t *b = malloc(limit ? limit : 1);
            double entropy;
            good += passgen_generate_fill_utf8(&pattern, &env, &entropy, b, limit) > 0;
            own_release(b);
        }
    } else {
        passgen_error_free(&error);
    }
    passgen_pattern_free(&pattern);
    passgen_env_free(&env);
    counting = 0;
    o_u32(good);
    o_u64((uint64_t) live_allocs);
    o_u64(open_files() - files);
    own_release(pattern_str);
}

static void cmd_life(void) {
    char *pattern_str = i_cstr();
    size_t nfill = i_u32();
    uint64_t seed = i_u64();
    live_allocs = 0;
    counting = 1;
    passgen_pattern pattern;
    passgen_error error;
    memset(&error, 0, sizeof(error));
    int ret = passgen_parse(&pattern, &error, pattern_str);
    uint64_t emitted_total = 0;
    if(ret == 0) {
        passgen_env env;
        passgen_env_init(&env, passgen_random_xorshift_open(NULL, seed | 1));
        uint8_t *b = malloc(nfill ? nfill : 1);
        double entropy;
        emitted_total +=
            passgen_generate_fill_utf8(&pattern, &env, &entropy, b, nfill);
        emitted_total +=
            passgen_generate_fill_json_utf8(&pattern, &env, NULL, b, nfill);
        own_release(b);
        passgen_env_free(&env);
    } else {
        passgen_error_free(&error);
    }
    passgen_pattern_free(&pattern);
    counting = 0;
    o_u8(ret != 0);
    o_u64(emitted_total);
    o_u64((uint64_t) live_allocs);
    own_release(pattern_str);
}

// ------------------------------------------------------------------------- utf8
static void cmd_utf8dec(void) {
    size_t n;
    uint8_t *input = i_copy(&n);
    uint8_t want_widths = i_u8();
    uint32_t calls = i_u32();
    const uint8_t *pos = input;
    for(uint32_t c = 0; c < calls; c++) {
        uint32_t cap = i_u32();
        uint32_t *outbuf = malloc(cap ? cap * 4 : 1);
        uint8_t *widths = malloc(cap ? cap : 1);
        uint32_t *cur = outbuf;
        size_t left = n - (pos - input);
        const uint8_t *before = pos;
        int ret = passgen_utf8_decode(
            &cur,
            cap,
            want_widths ? widths : NULL,
            &pos,
            left);
        o_u32((uint32_t) ret);
        o_u64(pos - before);
        size_t got = cur - outbuf;
        o_bytes(outbuf, got <= cap ? got * 4 : 0);
        o_bytes(widths, want_widths && got <= cap ? got : 0);
        own_release(outbuf);
        own_release(widths);
        if(pos < input || pos > input + n) _exit(EXIT_PROTOCOL);
        if(ret <= 0) {
            o_u8(1);
            own_release(input);
            return;
        }
        o_u8(c + 1 == calls);
    }
    own_release(input);
}

// many short inputs at once: status, bytes consumed, codepoints
static void cmd_utf8bulk(void) {
    uint32_t n = i_u32();
    for(uint32_t i = 0; i < n; i++) {
        uint8_t len = i_u8();
        uint8_t *input = malloc(len ? len : 1);
        memcpy(input, i_raw(len), len);
        uint32_t *outbuf = malloc(4 * (len ? len : 1));
        uint8_t *widths = malloc(len ? len : 1);
        const uint8_t *pos = input;
        uint32_t *cur = outbuf;
        int ret = passgen_utf8_decode(&cur, len, widths, &pos, len);
        size_t got = cur - outbuf;
        if(got > len || pos < input || pos > input + len) {
            _exit(EXIT_PROTOCOL);
        }
        o_u8((uint8_t) ret);
        o_u8((uint8_t) (pos - input));
        o_u8((uint8_t) got);
        o_raw(outbuf, got * 4);
        o_raw(widths, got);
        own_release(input);
        own_release(outbuf);
        own_release(widths);
    }
}

static void cmd_utf8enc(void) {
    size_t n;
    uint32_t *in = i_copy(&n);
    n /= 4;
    uint32_t calls = i_u32();
    size_t in_pos = 0;
    for(uint32_t c = 0; c < calls; c++) {
        uint32_t cap = i_u32();
        uint32_t start = i_u32();
        uint8_t *b = malloc(cap ? cap : 1);
        memset(b, 0xA5, cap);
        size_t out_pos = start;
        int ret = passgen_utf8_encode(b, cap, &out_pos, in, n, &in_pos);
        o_u32((uint32_t) ret);
        o_u64(out_pos);
        o_u64(in_pos);
        o_bytes(b, cap);
        own_release(b);
    }
    own_release(in);
}

static void cmd_utf8cp(void) {
    uint32_t n = i_u32();
    for(uint32_t i = 0; i < n; i++) {
        uint32_t cp = i_u32();
        uint8_t *b = malloc(4);
        memset(b, 0xA5, 4);
        int ret = passgen_utf8_encode_codepoint(b, cp);
        o_u32((uint32_t) ret);
        o_raw(b, 4);
        own_release(b);
    }
}

// ----------------------------------------------------------------- error objects
static void cmd_error(void) {
    uint32_t rounds = i_u32();
    passgen_error error;
    memset(&error, 0xA5, sizeof(error));
    while(rounds--) {
        char *message = i_cstr(), *file = i_cstr();
        uint32_t causes = i_u32();
        passgen_error_init_raw(&error, message);
        o_u32(error.source.file == NULL && error.source.line == 0 && error.causes.items == 0);
        passgen_error *cause = malloc((causes ? causes : 1) * sizeof(passgen_error));
        for(uint32_t i = 0; i < causes; i++) {
            passgen_error_init_raw(&cause[i], message + (i % 2));
            passgen_error_offset_set(&cause[i], i, 2 * i);
            passgen_error_cause_add(&error, &cause[i]);
        }
        size_t line = i_u64(), codepoint = i_u64(), byte = i_u64();
        passgen_error_source_set(&error, file, line);
        passgen_error_offset_set(&error, codepoint, byte);
        o_u32(error.message == message && error.source.file == file);
        o_u64(error.source.line);
        o_u64(error.offset.codepoint);
        o_u64(error.offset.byte);
        o_u64(error.causes.items);
        uint32_t same = 0;
        for(uint32_t i = 0; i < causes && i < error.causes.items; i++) {
            passgen_error *c = passgen_array_get(&error.causes, i);
            if(c == &cause[i] && c->offset.codepoint == i && c->offset.byte == 2 * (size_t) i && c->message == message + (i % 2)) same++;
        }
        o_u32(same);
        for(uint32_t i = 0; i < causes; i++) passgen_error_free(&cause[i]);
        own_release(cause);
        passgen_error_free(&error);
        own_release(message);
        own_release(file);
    }
}

// ------------------------------------------------------------------------ tokens
static void cmd_tok(void) {
    uint32_t n = i_u32();
    struct passgen_token_parser p;
    struct passgen_token t;
    memset(&p, 0xA5, sizeof(p));
    memset(&t, 0, sizeof(t));
    passgen_token_parser_init(&p);
    for(uint32_t i = 0; i < n; i++) {
        uint32_t cp = i_u32();
        uint8_t width = i_u8();
        int ret = passgen_token_parse(&p, &t, width, cp);
        o_u32((uint32_t) ret);
        o_u32(t.codepoint);
        o_u32(t.codepoint & PASSGEN_TOKEN_UNICODE_MASK);
        o_u64(t.offset);
        o_u64(t.byte_offset);
        o_u64(p.offset);
        o_u64(p.byte_offset);
        o_u8(passgen_token_parse_error_str(ret) != NULL);
    }
}

// ----------------------------------------------------------------------- random
static void random_ops(passgen_random *r) {
    uint32_t n = i_u32();
    for(uint32_t i = 0; i < n; i++) {
        uint8_t op = i_u8();
        uint64_t arg = i_u64();
        switch(op) {
            case 0: {
                uint8_t *b = malloc(arg ? arg : 1);
                memset(b, 0xA5, arg);
                passgen_random_read(r, b, arg);
                o_bytes(b, arg);
                own_release(b);
                break;
            }
            case 1: o_u64(passgen_random_u8(r)); break;
            case 2: o_u64(passgen_random_u16(r)); break;
            case 3: o_u64(passgen_random_u32(r)); break;
            case 4: o_u64(passgen_random_u64(r)); break;
            case 5: o_u64(passgen_random_bool(r)); break;
            case 6: o_u64(passgen_random_u8_max(r, (uint8_t) arg)); break;
            case 7: o_u64(passgen_random_u16_max(r, (uint16_t) arg)); break;
            case 8: o_u64(passgen_random_u32_max(r, (uint32_t) arg)); break;
            case 9: o_u64(passgen_random_u64_max(r, arg)); break;
            case 10:
                passgen_random_reload(r);
                o_u64(0);
                break;
            case 11:
                passgen_random_chacha20_seek(r, arg);
                o_u64(0);
                break;
            default: _exit(EXIT_PROTOCOL);
        }
    }
}

static void cmd_random(void) {
    uint8_t heap = i_u8();
    passgen_random *own = NULL;
    if(!heap) {
        own = malloc(sizeof(*own));
        memset(own, 0xA5, sizeof(*own));
    }
    passgen_random *r = open_random(own);
    o_u8(r != NULL);
    if(!r) {
        own_release(own);
        return;
    }
    if(own && r != own) _exit(EXIT_PROTOCOL);
    random_ops(r);
    if(own) {
        passgen_random_close(r);
        own_release(own);
    } else {
        passgen_random_free(r);
    }
}

// bulk histogram of bounded draws: op, max, count, buckets
static void cmd_hist(void) {
    passgen_random *r = open_random(NULL);
    o_u8(r != NULL);
    if(!r) return;
    uint8_t op = i_u8();
    uint64_t max = i_u64();
    uint32_t count = i_u32();
    uint32_t buckets = i_u32();
    uint64_t *h = calloc(buckets, sizeof(*h));
    uint64_t bad = 0;
    for(uint32_t i = 0; i < count; i++) {
        uint64_t v = 0;
        switch(op) {
            case 5: v = passgen_random_bool(r); break;
            case 6: v = passgen_random_u8_max(r, (uint8_t) max); break;
            case 7: v = passgen_random_u16_max(r, (uint16_t) max); break;
            case 8: v = passgen_random_u32_max(r, (uint32_t) max); break;
            case 9: v = passgen_random_u64_max(r, max); break;
            default: _exit(EXIT_PROTOCOL);
        }
        uint64_t top = op == 5 ? 2 : max;
        if(v >= top) {
            bad++;
            continue;
        }
        // bucket index floor(v * buckets / top)
        h[(size_t) (((unsigned __int128) v * buckets) / top)]++;
    }
    o_u64(bad);
    for(uint32_t i = 0; i < buckets; i++) o_u64(h[i]);
    own_release(h);
    passgen_random_free(r);
}

// ------------------------------------------------------------------- containers
static int hm_stop;
static int hm_collect(void *user, passgen_hashmap_entry *entry) {
    uint32_t *left = user;
    o_u8(1);
    o_u64((uint64_t) (uintptr_t) entry->value);
    o_u64((uint64_t) (uintptr_t) entry->key);
    if(*left == 0) return hm_stop;
    *left -= 1;
    return 0;
}

// a context of the caller's own: binary keys compared without regard to case,
// and data of its own behind the map
typedef struct {
    passgen_hashmap map;
    uint64_t salt;
    uint32_t inits, finis, foreign, early;
    bool weak, live;
} own_map;
static own_map *own_current;

static own_map *own_of(const passgen_hashmap *map) {
    if(map != &own_current->map) own_current->foreign++;
    return own_current;
}
static uint8_t own_byte(const uint8_t *key, uint32_t i) {
    uint8_t c = key[4 + i];
    return c >= 'A' && c <= 'Z' ? c + 32 : c;
}
static uint64_t own_hash(const passgen_hashmap *map, const void *key, bool first) {
    own_map *own = own_of(map);
    own->early += !own->live;
    uint32_t n;
    memcpy(&n, key, 4);
    uint64_t h = own->salt ^ (first ? 0 : 0x9e3779b97f4a7c15ull);
    if(own->weak && first) {
        for(uint32_t i = 0; i < n; i++) h += own_byte(key, i);
        return h & 15;
    }
    for(uint32_t i = 0; i < n; i++) h = (h ^ own_byte(key, i)) * 1099511628211ull;
    h ^= n;
    h = (h ^ (h >> 31)) * 0xbf58476d1ce4e5b9ull;
    return h ^ (h >> 29);
}
static bool own_equal(const passgen_hashmap *map, const void *lhs, const void *rhs) {
    own_map *own = own_of(map);
    own->early += !own->live;
    uint32_t n, m;
    memcpy(&n, lhs, 4);
    memcpy(&m, rhs, 4);
    if(n != m) return false;
    for(uint32_t i = 0; i < n; i++) {
        if(own_byte(lhs, i) != own_byte(rhs, i)) return false;
    }
    return true;
}
static void own_init(passgen_hashmap *map) {
    own_map *own = own_of(map);
    own->inits++;
    own->live = true;
}
static void own_fini(passgen_hashmap *map) {
    own_map *own = own_of(map);
    own->finis++;
    own->early += !own->live;
    own->live = false;
}
static const passgen_hashmap_context own_context = {
    .hash = own_hash,
    .equal = own_equal,
    .init = own_init,
    .fini = own_fini,
};

static void cmd_hashmap(void) {
    uint8_t wide = i_u8();
    uint32_t nkeys = i_u32();
    void **keys = calloc(nkeys ? nkeys : 1, sizeof(void *));
    for(uint32_t i = 0; i < nkeys; i++) {
        size_t n;
        const uint8_t *p = i_bytes(&n);
        if(wide >= 3) {
            uint32_t len = n;
            keys[i] = malloc(n + 4);
            memcpy(keys[i], &len, 4);
            memcpy((uint8_t *) keys[i] + 4, p, n);
            continue;
        }
        size_t pad = wide ? 4 : 1;
        keys[i] = calloc(1, n + pad);
        memcpy(keys[i], p, n);
    }
    // the reply names keys by address: send the table first
    for(uint32_t i = 0; i < nkeys; i++) o_u64((uint64_t) (uintptr_t) keys[i]);
    own_map own;
    memset(&own, 0, sizeof(own));
    own.salt = 0x1234567;
    own.weak = wide == 4;
    own_current = &own;
    memset(&own.map, 0xA5, sizeof(own.map));
#define map own.map
    passgen_hashmap_init(
        &map,
        wide >= 3   ? &own_context
        : wide == 2 ? NULL
        : wide == 1 ? &passgen_hashmap_context_utf32
                    : &passgen_hashmap_context_utf8);
    uint32_t nops = i_u32();
    for(uint32_t i = 0; i < nops; i++) {
        uint8_t op = i_u8();
        uint32_t k = i_u32();
        uint64_t v = i_u64();
        switch(op) {
            case 0: {
                passgen_hashmap_entry e =
                    passgen_hashmap_insert(&map, keys[k], (void *) (uintptr_t) v);
                o_u64((uint64_t) (uintptr_t) e.key);
                o_u64((uint64_t) (uintptr_t) e.value);
                break;
            }
            case 1: {
                passgen_hashmap_entry e = passgen_hashmap_remove(&map, keys[k]);
                o_u64((uint64_t) (uintptr_t) e.key);
                o_u64((uint64_t) (uintptr_t) e.value);
                break;
            }
            case 2: {
                passgen_hashmap_entry *e = passgen_hashmap_lookup(&map, keys[k]);
                o_u8(e != NULL);
                o_u64(e ? (uint64_t) (uintptr_t) e->key : 0);
                o_u64(e ? (uint64_t) (uintptr_t) e->value : 0);
                break;
            }
            case 3: {
                uint32_t left = k;
                hm_stop = (int32_t) (uint32_t) v;
                int ret = passgen_hashmap_foreach(&map, &left, hm_collect);
                o_u8(0);
                o_u32((uint32_t) ret);
                break;
            }
            case 4: // update in place through the entry returned by lookup
            {
                passgen_hashmap_entry *e = passgen_hashmap_lookup(&map, keys[k]);
                o_u8(e != NULL);
                if(e) e->value = (void *) (uintptr_t) v;
                break;
            }
            default: _exit(EXIT_PROTOCOL);
        }
        o_u64(map.len);
        if(map.capacity > (1u << 22)) _exit(EXIT_BUDGET);
    }
    passgen_hashmap_free(&map);
    bool zero = true;
    for(size_t i = 0; i < sizeof(map); i++) {
        if(((uint8_t *) &map)[i]) zero = false;
    }
    o_u8(zero);
#undef map
    if(wide >= 3) {
        o_u32(own.inits);
        o_u32(own.finis);
        o_u32(own.foreign);
        o_u32(own.early);
    }
    for(uint32_t i = 0; i < nkeys; i++) own_release(keys[i]);
    own_release(keys);
}

// a map of very many entries, checked against a table of what it should hold
static uint64_t *huge_want;
static uint32_t huge_stop;
static int huge_visit(void *user, passgen_hashmap_entry *entry) {
    uint32_t *seen = user;
    uint32_t k = (uint32_t) ((uint64_t) (uintptr_t) entry->value >> 32);
    seen[0]++;
    if(huge_want[k] != (uint64_t) (uintptr_t) entry->value) seen[1]++;
    return seen[0] == huge_stop ? 5 : 0;
}
static void cmd_hashmap_huge(void) {
    uint8_t own_keys = i_u8();
    uint32_t n = i_u32(), rounds = i_u32();
    uint64_t state = i_u64() | 1;
    const size_t key_size = 24;
    char *keys = calloc(n, key_size);
    huge_want = calloc(n, sizeof(uint64_t));
    for(uint32_t i = 0; i < n; i++) {
        char *key = &keys[i * key_size];
        if(own_keys) {
            uint32_t len = 4;
            memcpy(key, &len, 4);
            // no letters, so that all of them differ
            for(int j = 0; j < 4; j++) key[4 + j] = (char) (0x80 | ((i >> (j * 7)) & 0x7f));
        } else {
            snprintf(key, key_size, "key%u", i);
        }
    }
    own_map own;
    memset(&own, 0, sizeof(own));
    own.salt = 0x7654321;
    own_current = &own;
    passgen_hashmap *m = &own.map;
    passgen_hashmap_init(m, own_keys ? &own_context : &passgen_hashmap_context_utf8);
    uint64_t held = 0, bad = 0, ops = 0;
    for(uint32_t r = 0; r < rounds; r++) {
        for(uint32_t i = 0; i < n; i++) {
            state ^= state << 13;
            state ^= state >> 7;
            state ^= state << 17;
            uint32_t k = r == 0 ? i : (uint32_t) (state >> 33) % n;
            const void *key = &keys[(size_t) k * key_size];
            uint32_t what = r == 0 ? 0 : (uint32_t) (state >> 20) & 7;
            ops++;
            if(what < 3) {
                uint64_t v = ((uint64_t) k << 32) | (uint32_t) ops | 1;
                passgen_hashmap_entry e =
                    passgen_hashmap_insert(m, key, (void *) (uintptr_t) v);
                bad += (uint64_t) (uintptr_t) e.value != huge_want[k];
                bad += (e.key != NULL) != (huge_want[k] != 0);
                held += huge_want[k] == 0;
                huge_want[k] = v;
            } else if(what < 5) {
                passgen_hashmap_entry e = passgen_hashmap_remove(m, key);
                bad += (uint64_t) (uintptr_t) e.value != huge_want[k];
                held -= huge_want[k] != 0;
                huge_want[k] = 0;
            } else {
                passgen_hashmap_entry *e = passgen_hashmap_lookup(m, key);
                bad += (e ? (uint64_t) (uintptr_t) e->value : 0) != huge_want[k];
            }
            bad += m->len != held;
            if(m->capacity > (1u << 26)) _exit(EXIT_BUDGET);
        }
    }
    uint32_t seen[2] = {0, 0};
    huge_stop = 0;
    int ret = passgen_hashmap_foreach(m, seen, huge_visit);
    bad += ret != 0;
    o_u64(held);
    o_u64(m->len);
    o_u32(seen[0]);
    o_u32(seen[1]);
    uint64_t missing = 0;
    for(uint32_t k = 0; k < n; k++) {
        passgen_hashmap_entry *e = passgen_hashmap_lookup(m, &keys[(size_t) k * key_size]);
        missing += (e ? (uint64_t) (uintptr_t) e->value : 0) != huge_want[k];
    }
    o_u64(missing);
    uint32_t part[2] = {0, 0};
    huge_stop = (uint32_t) (held > 2 ? held - 1 : 0);
    ret = passgen_hashmap_foreach(m, part, huge_visit);
    bad += huge_stop && (ret != 5 || part[0] != huge_stop);
    o_u64(bad);
    o_u64(m->capacity);
    passgen_hashmap_free(m);
    own_release(keys);
    own_release(huge_want);
}

static void stack_visit(void *element) {
    o_u8(1);
    o_u64((uint64_t) (uintptr_t) element);
}

static void cmd_stack(void) {
    uint32_t esize = i_u32();
    passgen_stack st;
    memset(&st, 0xA5, sizeof(st));
    live_allocs = 0;
    counting = 1;
    passgen_stack_init(&st, esize);
    counting = 0;
    uint32_t nops = i_u32();
    for(uint32_t i = 0; i < nops; i++) {
        uint8_t op = i_u8();
        uint32_t arg = i_u32();
        switch(op) {
            case 0: // push value arg (repeated bytes pattern)
            case 1: // push NULL then write
            {
                uint8_t *tmp = malloc(esize);
                for(uint32_t j = 0; j < esize; j++) {
                    tmp[j] = (uint8_t) (arg >> (8 * (j % 4))) ^ (uint8_t) (j / 4);
                }
                counting = 1;
                void *p = passgen_stack_push(&st, op == 0 ? tmp : NULL);
                counting = 0;
                if(!p && vf_hit) _exit(EXIT_PROTOCOL); // reported
                if(op == 1) memcpy(p, tmp, esize);
                o_u8(p == passgen_stack_top(&st));
                own_release(tmp);
                break;
            }
            case 2: {
                uint8_t *tmp = malloc(esize);
                memset(tmp, 0xA5, esize);
                counting = 1;
                void *p = passgen_stack_pop(&st, arg ? tmp : NULL);
                counting = 0;
                o_u8(p == NULL ? 0 : (p == tmp ? 1 : 2));
                o_bytes(tmp, esize);
                own_release(tmp);
                break;
            }
            case 3: {
                void *p = passgen_stack_get(&st, arg);
                o_u8(p != NULL);
                if(p) o_bytes(p, esize);
                break;
            }
            case 4: {
                void *p = passgen_stack_top(&st);
                o_u8(p != NULL);
                if(p) o_bytes(p, esize);
                break;
            }
            case 5: {
                // addresses visited must be the elements, in order
                size_t mark = out.len;
                passgen_stack_foreach(&st, stack_visit);
                size_t count = (out.len - mark) / 9;
                bool ok = count == st.len;
                for(size_t j = 0; ok && j < count; j++) {
                    uint64_t a;
                    memcpy(&a, out.data + mark + j * 9 + 1, 8);
                    if((void *) (uintptr_t) a != passgen_stack_get(&st, j)) {
                        ok = false;
                    }
                }
                out.len = mark;
                o_u8(ok);
                o_u64(count);
                break;
            }
            default: _exit(EXIT_PROTOCOL);
        }
        o_u64(st.len);
    }
    counting = 1;
    passgen_stack_free(&st);
    counting = 0;
    o_u64((uint64_t) live_allocs);
}

static void cmd_array(void) {
    uint32_t cap = i_u32();
    passgen_array a;
    memset(&a, 0xA5, sizeof(a));
    live_allocs = 0;
    counting = 1;
    passgen_array_init(&a, cap);
    uint32_t nops = i_u32();
    for(uint32_t i = 0; i < nops; i++) {
        uint8_t op = i_u8();
        uint64_t arg = i_u64();
        switch(op) {
            case 0:
                passgen_array_push(&a, (void *) (uintptr_t) arg);
                o_u64(0);
                break;
            case 1: o_u64((uint64_t) (uintptr_t) passgen_array_pop(&a)); break;
            case 2:
                o_u64((uint64_t) (uintptr_t) passgen_array_get(&a, arg));
                break;
            default: _exit(EXIT_PROTOCOL);
        }
        o_u64(a.items);
    }
    passgen_array_free(&a);
    counting = 0;
    o_u64((uint64_t) live_allocs);
}

// ----------------------------------------------------------------- markov/words
static void cmd_markov(void) {
    uint32_t level = i_u32();
    passgen_markov m;
    passgen_markov_init(&m, level);
    uint32_t nwords = i_u32();
    for(uint32_t i = 0; i < nwords; i++) {
        size_t n;
        uint32_t *w = i_copy(&n);
        uint32_t weight = i_u32();
        passgen_markov_add(&m, w, n / 4, weight);
        own_release(w);
    }
    o_u64(m.count);
    passgen_random *r = open_random(NULL);
    if(!r) _exit(EXIT_PROTOCOL);
    // contexts to query: (context, draws)
    uint32_t nq = i_u32();
    for(uint32_t q = 0; q < nq; q++) {
        uint32_t *ctx = malloc(4 * level);
        memcpy(ctx, i_raw(4 * level), 4 * level);
        uint32_t draws = i_u32();
        for(uint32_t d = 0; d < draws; d++) {
            double e = 1.0;
            uint32_t cp = passgen_markov_generate(&m, ctx, r, &e);
            o_u32(cp);
            o_f64(e);
        }
        own_release(ctx);
    }
    // whole words
    uint32_t ngen = i_u32();
    for(uint32_t g = 0; g < ngen; g++) {
        size_t cap = 4096, pos = level;
        uint32_t *w = calloc(cap, 4);
        double e = 1.0;
        while(pos < cap) {
            w[pos] = passgen_markov_generate(&m, &w[pos - level], r, &e);
            if(!w[pos]) break;
            pos++;
        }
        o_u8(pos < cap);
        o_f64(e);
        o_bytes(&w[level], (pos - level) * 4);
        own_release(w);
    }
    passgen_random_free(r);
    passgen_markov_free(&m);
}

static void cmd_leaf(void) {
    passgen_markov_leaf *leaf = passgen_markov_leaf_new(i_u32());
    uint32_t n = i_u32();
    for(uint32_t i = 0; i < n; i++) {
        uint32_t cp = i_u32();
        uint64_t w = i_u64();
        leaf = passgen_markov_leaf_insert(leaf, cp, w);
    }
    o_u64(leaf->total_count);
    uint32_t q = i_u32();
    for(uint32_t i = 0; i < q; i++) {
        o_u64(passgen_markov_leaf_count(leaf, i_u32()));
    }
    passgen_markov_leaf_free(leaf);
}

static void cmd_wordlist(void) {
    size_t n;
    const uint8_t *p = i_bytes(&n);
    uint32_t level = i_u32();
    uint8_t how = i_u8();
    passgen_wordlist wl;
    memset(&wl, 0xA5, sizeof(wl));
    FILE *f = content_file(p, n);
    if(how & 2) {
        // the file was in use before: it is read from its start all the same
        fseek(f, n * (how >> 2) / 8, SEEK_SET);
        if(how & 4) fgetc(f);
    }
    if((how & 1) == 0) {
        passgen_wordlist_load(&wl, f, level);
        o_u32(0);
    } else {
        passgen_wordlist_init(&wl, f, level);
        o_u32((uint32_t) passgen_wordlist_parse(&wl));
    }
    size_t count = passgen_wordlist_count(&wl);
    o_u64(count);
    for(size_t i = 0; i < count; i++) {
        o_str(wl.words[i]);
    }
    passgen_random *r = open_random(NULL);
    uint32_t draws = i_u32();
    for(uint32_t d = 0; d < draws; d++) {
        o_str(passgen_wordlist_random(&wl, r));
    }
    passgen_random_free(r);
    passgen_wordlist_free(&wl);
}

// a buffer of more than 2^32 units, of which little is used
static void cmd_far(void) {
    char *text = i_cstr();
    passgen_pattern pattern;
    passgen_error error;
    if(passgen_parse(&pattern, &error, text) != 0) _exit(EXIT_PROTOCOL);
    passgen_env env;
    passgen_env_init(&env, NULL);
    add_wordlists(&env);
    env.random = open_random(NULL);
    uint8_t mode = i_u8();
    uint64_t len = i_u64();
    size_t unit = mode == 1 ? 4 : 1;
    uint8_t *b = mmap(NULL, len * unit, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    o_u8(b != MAP_FAILED);
    if(b != MAP_FAILED) {
        double entropy;
        size_t n = mode == 1   ? passgen_generate_fill_unicode(&pattern, &env, &entropy, (uint32_t *) b, len)
                   : mode == 2 ? passgen_generate_fill_utf8(&pattern, &env, &entropy, b, len)
                               : passgen_generate_fill_json_utf8(&pattern, &env, &entropy, b, len);
        o_u64(n);
        o_bytes(b, (n > 1 << 20 ? 1 << 20 : n) * unit);
        munmap(b, len * unit);
    }
    passgen_env_free(&env);
    passgen_pattern_free(&pattern);
    own_release(text);
}

// texts in a space of more than 2^32 bytes or codepoints
static void cmd_far_utf8(void) {
    uint8_t mode = i_u8();
    uint64_t len = i_u64();
    uint64_t start = i_u64();
    size_t n;
    const uint8_t *p = i_bytes(&n);
    size_t unit = mode ? 5 : 1;
    uint8_t *b = mmap(NULL, len * unit, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    o_u8(b != MAP_FAILED);
    if(b == MAP_FAILED) return;
    uint8_t *copy = malloc(n ? n : 1);
    memcpy(copy, p, n);
    if(mode) {
        uint8_t *widths = b + len * 4;
        uint32_t *out = (uint32_t *) b;
        const uint8_t *in = copy;
        int ret = passgen_utf8_decode(&out, len, widths, &in, n);
        uint64_t got = out - (uint32_t *) b;
        o_u32((uint32_t) ret);
        o_u64(in - copy);
        o_u64(got);
        if(got > n) got = n;
        o_bytes(b, got * 4);
        o_bytes(widths, got);
    } else {
        size_t opos = start, ipos = 0;
        int ret = passgen_utf8_encode(b, len, &opos, (const uint32_t *) copy, n / 4, &ipos);
        o_u32((uint32_t) ret);
        o_u64(ipos);
        o_u64(opos - start);
        o_bytes(b + start, opos - start > n ? n : opos - start);
        o_u8(start ? b[start - 1] : 0);
    }
    munmap(b, len * unit);
    own_release(copy);
}

// a file that cannot be read beyond some point
typedef struct {
    const uint8_t *data;
    size_t len, pos, bad;
} faulty;

static ssize_t faulty_read(void *c, char *buf, size_t n) {
    faulty *f = c;
    if(f->pos >= f->bad) {
        errno = EIO;
        return -1;
    }
    size_t end = f->bad < f->len ? f->bad : f->len;
    if(n > end - f->pos) n = end - f->pos;
    memcpy(buf, f->data + f->pos, n);
    f->pos += n;
    return (ssize_t) n;
}

static int faulty_seek(void *c, off64_t *off, int whence) {
    faulty *f = c;
    if(whence == SEEK_SET) f->pos = *off;
    else if(whence == SEEK_CUR) f->pos += *off;
    else return -1;
    *off = f->pos;
    return 0;
}

static void cmd_fault(void) {
    char *text = i_cstr();
    faulty f = {0};
    f.data = i_bytes(&f.len);
    f.bad = i_u64();
    passgen_pattern pattern;
    passgen_error error;
    if(passgen_parse(&pattern, &error, text) != 0) _exit(EXIT_PROTOCOL);
    passgen_env env;
    passgen_env_init(&env, open_random(NULL));
    cookie_io_functions_t io = {.read = faulty_read, .seek = faulty_seek};
    FILE *file = fopencookie(&f, "r", io);
    passgen_env_wordlist_add(&env, strdup("x"), file, 2);
    uint8_t mode = i_u8();
    for(int i = 0; i < 3; i++) {
        static uint8_t buffer[1 << 20];
        // modes: codepoints into a buffer, bytes into a buffer
        size_t n = sizeof(buffer);
        double entropy = 1;
        if(mode & 1) {
            n = passgen_generate_fill_unicode(&pattern, &env, &entropy, (uint32_t *) buffer, n / 4);
        } else {
            n = passgen_generate_fill_utf8(&pattern, &env, &entropy, buffer, n);
        }
        o_u32(n ? 0 : 1);
    }
    passgen_env_free(&env);
    passgen_pattern_free(&pattern);
    own_release(text);
}

// ------------------------------------------------------------------- primitives
static void cmd_argon2(void) {
    passgen_argon2_config c;
    c.algorithm = i_u32();
    c.nb_blocks = i_u32();
    c.nb_passes = i_u32();
    c.nb_lanes = i_u32();
    uint32_t hlen = i_u32();
    size_t pn, sn, kn, an;
    uint8_t *pass = i_copy(&pn), *salt = i_copy(&sn), *key = i_copy(&kn),
            *ad = i_copy(&an);
    passgen_argon2_inputs in = {
        .pass = pass,
        .pass_size = pn,
        .salt = salt,
        .salt_size = sn};
    passgen_argon2_extras ex = {
        .key = key,
        .key_size = kn,
        .ad = ad,
        .ad_size = an};
    void *work = malloc((size_t) c.nb_blocks * 1024);
    uint8_t *hash = malloc(hlen);
    passgen_argon2(hash, hlen, work, c, in, ex);
    o_bytes(hash, hlen);
    own_release(hash);
    own_release(work);
    own_release(pass);
    own_release(salt);
    own_release(key);
    own_release(ad);
}

static void cmd_siphash(void) {
    // buffers end where their blocks end, at any alignment
    size_t n, kn;
    const uint8_t *data = i_bytes(&n);
    const uint8_t *key = i_bytes(&kn);
    uint32_t outlen = i_u32();
    uint8_t at = i_u8() & 7, kat = i_u8() & 7, oat = i_u8() & 7;
    uint8_t *d = malloc(n + at ? n + at : 1), *k = malloc(kn + kat),
            *o = malloc(outlen + oat);
    memset(d, 0xA5, at);
    memcpy(d + at, data, n);
    memset(k, 0xA5, kat);
    memcpy(k + kat, key, kn);
    memset(o, 0x5A, outlen + oat);
    int ret = passgen_siphash(n ? d + at : (at ? NULL : d), n, k + kat, o + oat, outlen);
    bool ok = memcmp(d + at, data, n) == 0 && memcmp(k + kat, key, kn) == 0;
    for(int i = 0; i < oat; i++) ok = ok && o[i] == 0x5A;
    o_u32((uint32_t) ret);
    o_bytes(o + oat, outlen);
    o_u8(ok);
    own_release(o);
    own_release(d);
    own_release(k);
}

// a plain SipHash, for inputs that are too large to be sent here
#define ROT(x, b) (((x) << (b)) | ((x) >> (64 - (b))))
static void sip_rounds(uint64_t v[4], int n) {
    while(n--) {
        v[0] += v[1];
        v[1] = ROT(v[1], 13) ^ v[0];
        v[0] = ROT(v[0], 32);
        v[2] += v[3];
        v[3] = ROT(v[3], 16) ^ v[2];
        v[0] += v[3];
        v[3] = ROT(v[3], 21) ^ v[0];
        v[2] += v[1];
        v[1] = ROT(v[1], 17) ^ v[2];
        v[2] = ROT(v[2], 32);
    }
}

static void cmd_sipbig(void) {
    uint64_t n = i_u64(), seed = i_u64();
    uint32_t outlen = i_u32();
    uint8_t key[16], got[16], want[16];
    for(int i = 0; i < 16; i++) key[i] = (uint8_t) (seed >> (i % 8)) + i;
    uint8_t *d = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(d == MAP_FAILED) {
        o_u8(0);
        return;
    }
    for(int i = 0; i < 40; i++) {
        d[(seed * (i + 1) * 0x9E3779B97F4A7C15ull) % n] = (uint8_t) (i + 1);
        d[n - 1 - i] = (uint8_t) (i + 77);
        d[i] = (uint8_t) (i + 3);
    }
    passgen_siphash(d, n, key, got, outlen);
    uint64_t k0, k1;
    memcpy(&k0, key, 8);
    memcpy(&k1, key + 8, 8);
    uint64_t v[4] = {
        k0 ^ 0x736f6d6570736575ull,
        k1 ^ 0x646f72616e646f6dull ^ (outlen == 16 ? 0xee : 0),
        k0 ^ 0x6c7967656e657261ull,
        k1 ^ 0x7465646279746573ull};
    uint64_t m = 0;
    for(uint64_t i = 0; i + 8 <= n; i += 8) {
        memcpy(&m, d + i, 8);
        v[3] ^= m;
        sip_rounds(v, 2);
        v[0] ^= m;
    }
    m = 0;
    memcpy(&m, d + n / 8 * 8, n % 8);
    m |= n << 56;
    v[3] ^= m;
    sip_rounds(v, 2);
    v[0] ^= m;
    v[2] ^= outlen == 16 ? 0xee : 0xff;
    sip_rounds(v, 4);
    m = v[0] ^ v[1] ^ v[2] ^ v[3];
    memcpy(want, &m, 8);
    v[1] ^= 0xdd;
    sip_rounds(v, 4);
    m = v[0] ^ v[1] ^ v[2] ^ v[3];
    memcpy(want + 8, &m, 8);
    munmap(d, n);
    o_u8(1);
    o_bytes(got, outlen);
    o_bytes(want, outlen);
}

// ---------------------------------------------------- incremental parser (limit)
static void cmd_parser(void) {
    uint32_t limit = i_u32();
    uint32_t nchunks = i_u32();
    passgen_parser parser;
    passgen_pattern own, *pattern = nchunks % 2 ? &own : NULL;
    // with an even number of chunks, the parser allocates the pattern
    passgen_parser_init(&parser, pattern);
    if(limit) parser.limit = limit;
    int ret = 0;
    uint32_t c = 0;
    // every chunk ends on a token boundary
    for(; c < nchunks; c++) {
        size_t n;
        uint32_t *d = i_copy(&n);
        if(ret == 0) ret = passgen_parser_unicode(&parser, d, n / 4);
        own_release(d);
    }
    o_u32((uint32_t) ret);
    int fin = ret == 0 ? passgen_parse_finish(&parser) : 0;
    o_u32((uint32_t) fin);
    pattern = passgen_parser_free(&parser);
    if(ret == 0 && fin == 0) {
        passgen_env env;
        passgen_env_init(&env, open_random(NULL));
        uint32_t n = i_u32();
        for(uint32_t i = 0; i < n; i++) do_gen(pattern, &env, 0, 1u << 16, true);
        passgen_env_free(&env);
    }
    passgen_pattern_free(pattern);
    if(pattern != &own) free(pattern);
}

// ------------------------------------------------------- object table (histories)
#define SLOTS 8
static passgen_random *h_random[SLOTS];
static bool h_pattern_ok[SLOTS];
static passgen_pattern h_pattern[SLOTS];
static bool h_env_ok[SLOTS];
static passgen_env h_env[SLOTS];
static bool h_parser_ok[SLOTS];
static passgen_parser h_parser[SLOTS];
static passgen_token_parser h_tok[SLOTS];
static passgen_pattern h_parser_pattern[SLOTS];
static int h_parser_ret[SLOTS];

static void slot_free(uint8_t kind, uint8_t s) {
    switch(kind) {
        case 0:
            if(h_random[s]) passgen_random_free(h_random[s]);
            h_random[s] = NULL;
            break;
        case 1:
            if(h_pattern_ok[s]) passgen_pattern_free(&h_pattern[s]);
            h_pattern_ok[s] = false;
            break;
        case 2:
            if(h_env_ok[s]) {
                h_env[s].random = NULL;
                passgen_env_free(&h_env[s]);
            }
            h_env_ok[s] = false;
            break;
        case 3:
            if(h_parser_ok[s]) {
                passgen_parser_free(&h_parser[s]);
                passgen_pattern_free(&h_parser_pattern[s]);
            }
            h_parser_ok[s] = false;
            break;
    }
}

typedef struct {
    emitted emitted;
    uint8_t pattern, most;
    passgen_env *env;
    uint32_t count;
} nested;

static int nested_cb(void *data, uint32_t cp) {
    nested *in = data;
    if(in->count < in->most) {
        in->count++;
        do_gen(&h_pattern[in->pattern], in->env, 2, 1u << 12, true);
    }
    return emit_cb(&in->emitted, cp);
}

static void cmd_history(void) {
    uint32_t nops = i_u32();
    for(uint32_t k = 0; k < nops; k++) {
        uint8_t op = i_u8();
        uint8_t s = i_u8() % SLOTS;
        switch(op) {
            case 0:
                slot_free(0, s);
                h_random[s] = open_random(NULL);
                o_u8(h_random[s] != NULL);
                break;
            case 1: {
                slot_free(1, s);
                char *str = i_cstr();
                passgen_error e;
                memset(&e, 0, sizeof(e));
                int ret = passgen_parse(&h_pattern[s], &e, str);
                own_release(str);
                o_u8(ret != 0);
                if(ret) passgen_pattern_free(&h_pattern[s]);
                h_pattern_ok[s] = ret == 0;
                break;
            }
            case 2: {
                slot_free(2, s);
                passgen_env_init(&h_env[s], NULL);
                h_env_ok[s] = true;
                add_wordlists(&h_env[s]);
                break;
            }
            case 3: { // generate pattern s with env e and random r
                uint8_t e = i_u8() % SLOTS, r = i_u8() % SLOTS;
                uint8_t mode = i_u8();
                if(h_pattern_ok[s] && h_env_ok[e] && h_random[r]) {
                    o_u8(1);
                    h_env[e].random = h_random[r];
                    do_gen(&h_pattern[s], &h_env[e], mode, 1u << 12, true);
                    h_env[e].random = NULL;
                } else {
                    o_u8(0);
                }
                break;
            }
            case 4: // random ops
                if(!h_random[s]) _exit(EXIT_PROTOCOL);
                random_ops(h_random[s]);
                break;
            case 5: slot_free(i_u8(), s); break;
            case 6: // start an incremental parser
                slot_free(3, s);
                passgen_parser_init(&h_parser[s], &h_parser_pattern[s]);
                passgen_token_parser_init(&h_tok[s]);
                h_parser_ok[s] = true;
                h_parser_ret[s] = 0;
                break;
            case 7: { // feed codepoints
                size_t n;
                uint32_t *d = i_copy(&n);
                if(!h_parser_ok[s]) _exit(EXIT_PROTOCOL);
                passgen_token t;
                memset(&t, 0, sizeof(t));
                for(size_t i = 0; i < n / 4 && h_parser_ret[s] == 0; i++) {
                    int ret = passgen_token_parse(&h_tok[s], &t, 1, d[i]);
                    if(ret < 0) h_parser_ret[s] = ret;
                    if(ret == PASSGEN_TOKEN_INIT) {
                        h_parser_ret[s] = passgen_parse_token(&h_parser[s], &t);
                    }
                }
                o_u8(h_parser_ret[s] != 0);
                own_release(d);
                break;
            }
            case 8: { // finish: becomes pattern slot s
                if(!h_parser_ok[s]) _exit(EXIT_PROTOCOL);
                int ret = h_parser_ret[s] ||
                          h_tok[s].state != PASSGEN_TOKEN_INIT ||
                          passgen_parse_finish(&h_parser[s]);
                passgen_parser_free(&h_parser[s]);
                h_parser_ok[s] = false;
                o_u8(ret != 0);
                slot_free(1, s);
                if(ret) {
                    passgen_pattern_free(&h_parser_pattern[s]);
                } else {
                    h_pattern[s] = h_parser_pattern[s];
                    h_pattern_ok[s] = true;
                }
                break;
            }
            case 9: { // generation during which another one runs
                uint8_t e = i_u8() % SLOTS, r = i_u8() % SLOTS;
                nested in = {.pattern = i_u8() % SLOTS};
                uint8_t e2 = i_u8() % SLOTS, r2 = i_u8() % SLOTS;
                in.most = i_u8();
                bool ok = h_pattern_ok[s] && h_env_ok[e] && h_random[r] &&
                          h_pattern_ok[in.pattern] && h_env_ok[e2] &&
                          h_random[r2] && e != e2 && r != r2;
                o_u8(ok);
                if(!ok) break;
                in.env = &h_env[e2];
                in.emitted.limit = 1u << 12;
                h_env[e].random = h_random[r];
                h_env[e2].random = h_random[r2];
                double entropy = -7.0;
                int ret = passgen_generate(&h_pattern[s], &h_env[e], &entropy, &in, nested_cb);
                h_env[e].random = h_env[e2].random = NULL;
                o_u32(in.count);
                o_u64((uint64_t) (int64_t) ret);
                o_f64(entropy);
                o_bytes(in.emitted.cps, in.emitted.len * 4);
                own_release(in.emitted.cps);
                break;
            }
            default: _exit(EXIT_PROTOCOL);
        }
    }
    for(uint8_t s = 0; s < SLOTS; s++) {
        for(uint8_t kind = 0; kind < 4; kind++) slot_free(kind, s);
    }
}

// --------------------------------------------------------------------- threads
// independent jobs, first one after the other, then all at the same time
typedef struct {
    char *pattern, *random, *words;
    size_t words_len;
    uint32_t level, outputs;
    uint8_t *result[2];
    size_t result_len[2];
    int which;
} job;

static pthread_barrier_t job_barrier;

static void *job_run(void *data) {
    job *j = data;
    int w = j->which;
    uint8_t *res = j->result[w];
    size_t len = 0;
    if(w) pthread_barrier_wait(&job_barrier);
    passgen_pattern pattern;
    passgen_error error;
    memset(&error, 0, sizeof(error));
    if(passgen_parse(&pattern, &error, j->pattern) != 0) {
        res[len++] = 1;
        memcpy(res + len, &error.offset.byte, 8);
        len += 8;
    } else {
        passgen_env env;
        passgen_env_init(&env, passgen_random_open(NULL, j->random));
        if(env.random) {
            FILE *f = fmemopen(j->words, j->words_len, "r");
            if(f) passgen_env_wordlist_add(&env, strdup("w"), f, j->level);
            for(uint32_t i = 0; i < j->outputs; i++) {
                double entropy = 0;
                size_t n = passgen_generate_fill_utf8(
                    &pattern,
                    &env,
                    &entropy,
                    res + len,
                    500);
                len += n;
                res[len++] = 0;
                memcpy(res + len, &entropy, 8);
                len += 8;
            }
        }
        passgen_env_free(&env);
    }
    passgen_pattern_free(&pattern);
    j->result_len[w] = len;
    return NULL;
}

static void cmd_threads(void) {
    uint32_t n = i_u32();
    if(n > 16) _exit(EXIT_PROTOCOL);
    job jobs[16];
    memset(jobs, 0, sizeof(jobs));
    for(uint32_t i = 0; i < n; i++) {
        jobs[i].pattern = i_cstr();
        jobs[i].random = i_cstr();
        jobs[i].words = (char *) i_copy(&jobs[i].words_len);
        jobs[i].level = i_u32();
        jobs[i].outputs = i_u32();
        for(int w = 0; w < 2; w++) {
            jobs[i].result[w] = malloc(600 * (jobs[i].outputs + 1));
        }
    }
    for(uint32_t i = 0; i < n; i++) {
        jobs[i].which = 0;
        job_run(&jobs[i]);
        o_bytes(jobs[i].result[0], jobs[i].result_len[0]);
    }
    pthread_t threads[16];
    pthread_barrier_init(&job_barrier, NULL, n);
    for(uint32_t i = 0; i < n; i++) {
        jobs[i].which = 1;
        if(pthread_create(&threads[i], NULL, job_run, &jobs[i])) _exit(EXIT_PROTOCOL);
    }
    for(uint32_t i = 0; i < n; i++) pthread_join(threads[i], NULL);
    pthread_barrier_destroy(&job_barrier);
    for(uint32_t i = 0; i < n; i++) {
        o_bytes(jobs[i].result[1], jobs[i].result_len[1]);
        for(int w = 0; w < 2; w++) own_release(jobs[i].result[w]);
        own_release(jobs[i].pattern);
        own_release(jobs[i].random);
        own_release(jobs[i].words);
    }
}

// ---------------------------------------------------------------------- wiping
static bool all_zero(const void *p, size_t n) {
    for(size_t i = 0; i < n; i++) {
        if(((const uint8_t *) p)[i]) return false;
    }
    return true;
}

// needles from the request go to entries at.. of the list
static size_t read_needles(uint8_t to[64][16], size_t *len, size_t at) {
    uint32_t nn = i_u32();
    for(uint32_t i = 0; i < nn; i++) {
        size_t n;
        const uint8_t *p = i_bytes(&n);
        if(at == 60) continue;
        len[at] = n > 16 ? 16 : n;
        memcpy(to[at++], p, n > 16 ? 16 : n);
    }
    return at;
}

static void cmd_wipe(void) {
    // blocks the library frees are searched for the first needles from before
    // the source is opened on, for the second ones when it is closed
    uint8_t heap = i_u8();
    passgen_random *own = heap ? NULL : calloc(1, sizeof(*own));
    static uint8_t late[64][16];
    static size_t late_len[64];
    size_t early = read_needles(needles, needle_len, 0);
    size_t n_late = read_needles(late, late_len, 0);
    needle_hits = 0;
    needle_count = early;
    passgen_random *r = open_random(own);
    needle_count = r ? early : 0;
    o_u8(r != NULL);
    if(!r) {
        o_u64(needle_hits);
        own_release(own);
        return;
    }
    random_ops(r);
    size_t k = early;
    for(size_t i = 0; i < n_late && k < 62; i++) {
        memcpy(needles[k], late[i], 16);
        needle_len[k++] = late_len[i];
    }
    // unread buffered bytes are secrets too
    size_t left = sizeof(r->buffer) - r->pos;
    if(left >= 16) {
        memcpy(needles[k], &r->buffer[r->pos], 16);
        needle_len[k++] = 16;
        memcpy(needles[k], &r->buffer[sizeof(r->buffer) - 16], 16);
        needle_len[k++] = 16;
    }
    needle_count = k;
    bool zero = true;
    if(own) {
        passgen_random_close(r);
        needle_count = 0;
        zero = all_zero(own, sizeof(*own));
        own_release(own);
    } else {
        passgen_random_free(r);
        needle_count = 0;
    }
    o_u8(zero);
    o_u64(needle_hits);
    o_u64(left);
}

// pattern/env/wordlist/map structures are cleared by their free functions, and
// the library leaves no trace of the needle strings in the heap it returns
static void cmd_wipe2(void) {
    needle_count = 0;
    size_t nn = read_needles(needles, needle_len, 0);
    char *str = i_cstr();
    passgen_pattern pattern;
    passgen_error e;
    memset(&pattern, 0xA5, sizeof(pattern));
    memset(&e, 0, sizeof(e));
    int ret = passgen_parse(&pattern, &e, str);
    o_u8(ret != 0);
    passgen_env env;
    memset(&env, 0xA5, sizeof(env));
    passgen_env_init(&env, NULL);
    add_wordlists(&env);
    needle_hits = 0;
    needle_count = nn;
    env.random = open_random(NULL);
    if(!env.random) _exit(EXIT_PROTOCOL);
    if(ret == 0) {
        uint8_t b[512];
        size_t n = passgen_generate_fill_utf8(&pattern, &env, NULL, b, 512);
        (void) n;
    }
    passgen_pattern_free(&pattern);
    passgen_env_free(&env);
    needle_count = 0;
    uint8_t zero = 0;
    zero |= all_zero(&pattern, sizeof(pattern)) ? 1 : 0;
    zero |= all_zero(&env, sizeof(env)) ? 2 : 0;
    o_u8(zero);
    o_u64(needle_hits);
    own_release(str);
}

// ------------------------------------------------------------ allocator routing
// every kind of hook in two versions, which log what they are called with
typedef struct {
    uint64_t version, kind, state, a, b;
    void *ptr, *ret;
} hook_call;
static hook_call hook_log[8];
static uint32_t hook_calls;
static char hook_states[4];

static void *log_call(uint64_t version, uint64_t kind, void *state, void *ptr, uint64_t a, uint64_t b, void *ret) {
    uint64_t index = 99;
    if(!state) index = 0;
    for(int i = 0; i < 4; i++) {
        if(state == &hook_states[i]) index = i + 1;
    }
    if(hook_calls < 8) {
        hook_log[hook_calls] = (hook_call){version, kind, index, a, b, ptr, ret};
    }
    hook_calls++;
    return ret;
}
#define HOOK_MOST (1u << 20)
#define HOOKS(v)                                                            \
    static void *hook_malloc_##v(void *s, size_t n) {                       \
        void *p = n > HOOK_MOST ? NULL : malloc(n ? n : 1);                 \
        return log_call(v, 0, s, NULL, n, 0, p);                            \
    }                                                                       \
    static void *hook_calloc_##v(void *s, size_t c, size_t n) {             \
        bool big = c > HOOK_MOST || n > HOOK_MOST || c * n > HOOK_MOST;     \
        void *p = big ? NULL : calloc(c * n ? c : 1, c * n ? n : 1);        \
        return log_call(v, 1, s, NULL, c, n, p);                            \
    }                                                                       \
    static void *hook_realloc_##v(void *s, void *p, size_t n) {             \
        void *r = n > HOOK_MOST ? NULL : realloc(p, n ? n : 1);             \
        return log_call(v, 2, s, p, n, 0, r);                               \
    }                                                                       \
    static void hook_free_##v(void *s, void *p) {                           \
        log_call(v, 3, s, p, 0, 0, NULL);                                   \
        free(p);                                                            \
    }
HOOKS(1)
HOOKS(2)

static void cmd_context(void) {
    passgen_context ctx[3];
    memset(ctx, 0xA5, sizeof(ctx));
    for(int c = 0; c < 3; c++) passgen_context_init(&ctx[c]);
    uint8_t *blocks[4] = {0};
    size_t sizes[4] = {0};
    uint8_t fill[4] = {0};
    uint32_t n = i_u32();
    for(uint32_t i = 0; i < n; i++) {
        uint8_t c = i_u8() % 3, op = i_u8(), b = i_u8() & 3;
        uint64_t x = i_u64(), y = i_u64();
        passgen_context *k = &ctx[c];
        bool ok = true;
        hook_calls = 0;
        void *was = blocks[b];
        switch(op) {
            case 0:
            case 1: {
                uint8_t *p = op == 0 ? passgen_malloc(k, x) : passgen_calloc(k, x, y);
                if(hook_calls) ok = ok && p == hook_log[0].ret;
                own_release(blocks[b]);
                blocks[b] = p;
                sizes[b] = p ? (op == 0 ? x : x * y) : 0;
                if(op == 1 && p) ok = ok && all_zero(p, sizes[b]);
                if(!hook_calls) ok = ok && p;
                break;
            }
            case 2: {
                uint8_t *p = passgen_realloc(k, blocks[b], x);
                if(hook_calls) ok = ok && p == hook_log[0].ret && hook_log[0].ptr == was;
                if(!hook_calls) ok = ok && p;
                if(!p) break; // the old block is still there
                for(size_t j = 0; j < sizes[b] && j < x; j++) ok = ok && p[j] == fill[b];
                blocks[b] = p;
                sizes[b] = x;
                break;
            }
            case 3:
                passgen_free(k, blocks[b]);
                if(hook_calls) ok = ok && hook_log[0].ptr == was;
                blocks[b] = NULL;
                sizes[b] = 0;
                break;
            case 4: passgen_context_set_malloc(k, x == 0 ? NULL : x == 1 ? hook_malloc_1 : hook_malloc_2); break;
            case 5: passgen_context_set_calloc(k, x == 0 ? NULL : x == 1 ? hook_calloc_1 : hook_calloc_2); break;
            case 6: passgen_context_set_realloc(k, x == 0 ? NULL : x == 1 ? hook_realloc_1 : hook_realloc_2); break;
            case 7: passgen_context_set_free(k, x == 0 ? NULL : x == 1 ? hook_free_1 : hook_free_2); break;
            case 8: passgen_context_set_alloc_state(k, x == 0 ? NULL : &hook_states[(x - 1) & 3]); break;
            case 9: passgen_context_init(k); break;
            default: _exit(EXIT_PROTOCOL);
        }
        // all of what was asked for is usable
        fill[b] = (uint8_t) (i + 1);
        if(blocks[b]) memset(blocks[b], fill[b], sizes[b]);
        o_u8(ok);
        o_u32(hook_calls);
        for(uint32_t j = 0; j < hook_calls && j < 8; j++) {
            o_u8(hook_log[j].version);
            o_u8(hook_log[j].kind);
            o_u8(hook_log[j].state);
            o_u64(hook_log[j].a);
            o_u64(hook_log[j].b);
        }
    }
    for(int b = 0; b < 4; b++) own_release(blocks[b]);
}

static void cmd_version(void) {
    passgen_version v = passgen_version_get();
    o_u8(v.major);
    o_u8(v.minor);
    o_u8(v.patch);
    o_u8(passgen_is_debug());
    uint32_t n = i_u32();
    for(uint32_t i = 0; i < n; i++) {
        passgen_version q = v;
        q.major = i_u8();
        q.minor = i_u8();
        q.patch = i_u8();
        o_u8(passgen_version_compatible(q));
    }
}

#include "crypto.inc"

// ------------------------------------------------------------------------- main
static void on_prof(int sig) {
    (void) sig;
    static const char msg[] = "WORKER-HANG: cpu limit for one request exceeded\n";
    ssize_t r = write(2, msg, sizeof(msg) - 1);
    (void) r;
    _exit(EXIT_HANG);
}

static bool read_full(void *p, size_t n) {
    uint8_t *b = p;
    while(n) {
        ssize_t r = read(0, b, n);
        if(r < 0 && errno == EINTR) continue;
        if(r <= 0) return false;
        b += r;
        n -= r;
    }
    return true;
}

static void write_full(const void *p, size_t n) {
    const uint8_t *b = p;
    while(n) {
        ssize_t r = write(3, b, n);
        if(r < 0 && errno == EINTR) continue;
        if(r <= 0) _exit(EXIT_PROTOCOL);
        b += r;
        n -= r;
    }
}

static void dispatch(uint8_t cmd);

// Another request, in a process of its own, with some allocation of the
// library refused. Replies how the process ended and what it replied.
static void cmd_oom(void) {
    uint64_t at = i_u64();
    int all = i_u8();
    int fds[2];
    FILE *err = tmpfile();
    if(!err || pipe(fds)) _exit(EXIT_PROTOCOL);
    pid_t pid = fork();
    if(pid == 0) {
        dup2(fileno(err), 2);
        dup2(fileno(err), 1);
        vf_count = 0;
        vf_at = at;
        vf_all = all;
        vf_hit = 0;
        dispatch(i_u8());
        vf_at = 0;
        memcpy(out.data, &vf_count, 4);
        for(size_t done = 0; done < out.len;) {
            ssize_t n = write(fds[1], out.data + done, out.len - done);
            if(n <= 0) _exit(EXIT_PROTOCOL);
            done += n;
        }
        _exit(0);
    }
    close(fds[1]);
    in_p = in_end;
    size_t len = 0, cap = 1 << 16;
    uint8_t *reply = malloc(cap);
    ssize_t n;
    while((n = read(fds[0], reply + len, cap - len)) > 0) {
        len += n;
        if(len == cap) reply = own_resize(reply, cap *= 2);
    }
    close(fds[0]);
    int status = 0;
    waitpid(pid, &status, 0);
    o_u8(WIFSIGNALED(status) ? 2 : WEXITSTATUS(status) ? 1 : 0);
    o_u32(WIFSIGNALED(status) ? WTERMSIG(status) : WEXITSTATUS(status));
    o_bytes(reply, len);
    free(reply);
    char text[4000];
    size_t size = 0;
    fseek(err, 0, SEEK_SET);
    size = fread(text, 1, sizeof(text), err);
    o_bytes(text, size);
    fclose(err);
}

static void dispatch(uint8_t cmd) {
    switch(cmd) {
        case 1: cmd_gen(); break;
        case 2: cmd_utf8dec(); break;
        case 3: cmd_utf8enc(); break;
        case 4: cmd_utf8cp(); break;
        case 5: cmd_tok(); break;
        case 6: cmd_random(); break;
        case 7: cmd_hist(); break;
        case 8: cmd_hashmap(); break;
        case 9: cmd_stack(); break;
        case 10: cmd_array(); break;
        case 11: cmd_markov(); break;
        case 12: cmd_leaf(); break;
        case 13: cmd_wordlist(); break;
        case 14: cmd_argon2(); break;
        case 15: cmd_siphash(); break;
        case 16: cmd_parser(); break;
        case 17: cmd_history(); break;
        case 18: cmd_wipe(); break;
        case 28: cmd_env_life(); break;
        case 19: cmd_wipe2(); break;
        case 20: cmd_context(); break;
        case 21: cmd_version(); break;
        case 22: cmd_life(); break;
        case 23: cmd_utf8bulk(); break;
        case 24: cmd_threads(); break;
        case 25: cmd_sipbig(); break;
        case 26: cmd_tally(); break;
        case 27: cmd_crypto(); break;
        case 29: cmd_oom(); break;
        case 30: cmd_error(); break;
        case 31: cmd_fault(); break;
        case 32: cmd_far(); break;
        case 33: cmd_hashmap_huge(); break;
        case 34: cmd_far_utf8(); break;
        default: _exit(EXIT_PROTOCOL);
    }
}

int main(int argc, char **argv) {
    int cpu = argc > 1 ? atoi(argv[1]) : 20;
#ifdef HAVE_ASAN
    __sanitizer_install_malloc_and_free_hooks(hook_malloc, hook_free);
#endif
    // replies go to a private descriptor, so that anything the library prints
    // to stdout cannot corrupt the protocol
    dup2(1, 3);
    dup2(2, 1);
    signal(SIGPROF, on_prof);
    uint32_t len;
    uint8_t *req = NULL;
    size_t cap = 0;
    o_raw("", 0);
    while(read_full(&len, 4)) {
        if(len > cap) {
            cap = len * 2;
            req = own_resize(req, cap);
        }
        if(!read_full(req, len)) break;
        in_p = req;
        in_end = req + len;
        out.len = 0;
        o_u32(0);
        counting = 0;
        last_scripted = NULL;
        struct itimerval it = {.it_value = {.tv_sec = cpu}};
        setitimer(ITIMER_PROF, &it, NULL);
        uint8_t cmd = i_u8();
        dispatch(cmd);
        uint32_t n = (uint32_t) (out.len - 4);
        memcpy(out.data, &n, 4);
        write_full(out.data, out.len);
    }
    return 0;
}
