// Coverage-guided target: arbitrary bytes through every entry point that takes
// text. The first byte selects which. All memory has to be released at the end
// of each run, and generation must not write past exact-size buffers.
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include <passgen/generate.h>
#include <passgen/parser/parser.h>
#include <passgen/parser/token.h>
#include <passgen/passgen.h>
#include <passgen/pattern/env.h>
#include <passgen/pattern/pattern.h>
#include <passgen/random.h>
#include <passgen/util/utf8.h>

int __sanitizer_install_malloc_and_free_hooks(
    void (*malloc_hook)(const volatile void *, size_t),
    void (*free_hook)(const volatile void *));

static __thread int counting;
static int64_t live;
static void on_malloc(const volatile void *p, size_t n) {
    (void) n;
    if(p && counting) live++;
}
static void on_free(const volatile void *p) {
    if(p && counting) live--;
}

static void begin(void) {
    live = 0;
    counting = 1;
}

static void end(const char *what) {
    counting = 0;
    if(live != 0) {
        fprintf(stderr, "FUZZ: %s leaves %lld allocations\n", what, (long long) live);
        abort();
    }
}

static void fail(const char *what) {
    fprintf(stderr, "FUZZ: %s\n", what);
    abort();
}

static int emit(void *data, uint32_t cp) {
    (void) cp;
    size_t *left = data;
    if(!*left) return 1;
    *left -= 1;
    return 0;
}

// upper bound of the work that repetitions can cause, from the digits alone
static double work(const uint8_t *d, size_t n) {
    double product = 1, run = 0;
    for(size_t i = 0; i <= n; i++) {
        if(i < n && d[i] >= '0' && d[i] <= '9') {
            run = run * 10 + (d[i] - '0');
        } else {
            if(run > 1) product *= run;
            run = 0;
        }
    }
    return product * (double) (n + 1);
}

static uint64_t seed_of(const uint8_t *d, size_t n) {
    uint64_t h = 1469598103934665603u;
    for(size_t i = 0; i < n; i++) h = (h ^ d[i]) * 1099511628211u;
    return h | 1;
}

static void generate(passgen_pattern *pattern, passgen_env *env, size_t room) {
    for(int i = 0; i < 2; i++) {
        double entropy;
        size_t left = room;
        passgen_generate(pattern, env, i ? &entropy : NULL, &left, emit);
        uint32_t *u = malloc(4 * room + 1);
        if(passgen_generate_fill_unicode(pattern, env, &entropy, u, room) > room) fail("length beyond buffer");
        free(u);
        uint8_t *b = malloc(room + 1);
        if(passgen_generate_fill_utf8(pattern, env, NULL, b, room) > room) fail("length beyond buffer");
        if(passgen_generate_fill_json_utf8(pattern, env, &entropy, b, room) > room) fail("length beyond buffer");
        free(b);
    }
}

static void with_pattern(const uint8_t *d, size_t n) {
    size_t room = n ? d[0] : 0;
    if(n) d++, n--;
    char *s = malloc(n + 1);
    memcpy(s, d, n);
    s[n] = 0;
    size_t len = strlen(s);
    s = realloc(s, len + 1);
    begin();
    passgen_pattern pattern;
    passgen_error error;
    memset(&error, 0, sizeof(error));
    if(0 == passgen_parse(&pattern, &error, s)) {
        if(work(d, n) < 20000) {
            passgen_env env;
            passgen_env_init(&env, passgen_random_xorshift_open(NULL, seed_of(d, n)));
            generate(&pattern, &env, room);
            passgen_env_free(&env);
        }
    } else {
        if(error.offset.byte > len) fail("error offset beyond the pattern");
        passgen_error_free(&error);
    }
    passgen_pattern_free(&pattern);
    end("pattern");
    free(s);
}

static void with_wordlist(const uint8_t *d, size_t n) {
    if(n < 2) return;
    size_t level = d[0] % 9 + 1;
    d++, n--;
    begin();
    passgen_env env;
    passgen_env_init(&env, passgen_random_xorshift_open(NULL, seed_of(d, n)));
    char *name = malloc(2);
    strcpy(name, "a");
    counting = 0;
    FILE *f = fmemopen((void *) d, n, "r");
    counting = 1;
    passgen_env_wordlist_add(&env, name, f, level);
    passgen_pattern pattern;
    passgen_error error;
    if(0 != passgen_parse(&pattern, &error, "\\w{a}\\m{a}")) fail("pattern is rejected");
    generate(&pattern, &env, 40);
    passgen_pattern_free(&pattern);
    passgen_env_free(&env);
    counting = 0;
}

static void with_utf8(const uint8_t *d, size_t n) {
    if(n < 1) return;
    size_t room = d[0] % 16 + 1;
    d++, n--;
    uint8_t *in = malloc(n + 1);
    in = realloc(in, n ? n : 1);
    memcpy(in, d, n);
    const uint8_t *p = in;
    for(;;) {
        uint32_t *out = malloc(room * 4);
        uint8_t *widths = malloc(room);
        uint32_t *o = out;
        const uint8_t *before = p;
        int ret = passgen_utf8_decode(&o, room, widths, &p, n - (p - in));
        size_t got = o - out;
        if(got > room || (size_t) (p - in) > n) fail("decodes beyond its buffer");
        size_t sum = 0;
        for(size_t i = 0; i < got; i++) {
            uint8_t enc[4];
            sum += widths[i];
            int bytes = passgen_utf8_encode_codepoint(enc, out[i]);
            if(bytes != widths[i]) fail("width");
            if(memcmp(enc, before + sum - bytes, bytes)) fail("decoding and encoding differ");
        }
        free(out);
        free(widths);
        if(ret <= 0) break;
        if(got == 0) fail("decoding makes no progress");
    }
    free(in);
}

static void with_codepoints(const uint8_t *d, size_t n) {
    size_t k = n / 3;
    if(k > 400) k = 400;
    uint32_t *cps = malloc(4 * k + 1);
    double product = 1, run = 0;
    for(size_t i = 0; i < k; i++) {
        uint32_t c = d[3 * i] | d[3 * i + 1] << 8 | d[3 * i + 2] << 16;
        c %= 0x110000;
        if(c >= 0xd800 && c < 0xe000) c = 0x7c;
        cps[i] = c;
        if(c >= '0' && c <= '9') {
            run = run * 10 + (c - '0');
        } else {
            if(run > 1) product *= run;
            run = 0;
        }
    }
    begin();
    passgen_parser parser;
    passgen_pattern pattern;
    passgen_parser_init(&parser, &pattern);
    parser.limit = 500;
    passgen_token_parser tokens = {0};
    passgen_token token = {0};
    bool ok = true;
    for(size_t i = 0; ok && i < k; i++) {
        int ret = passgen_token_parse(&tokens, &token, 1, cps[i]);
        if(ret < 0) ok = false;
        if(ret == PASSGEN_TOKEN_INIT && 0 != passgen_parse_token(&parser, &token)) ok = false;
    }
    if(ok && tokens.state == PASSGEN_TOKEN_INIT && 0 == passgen_parse_finish(&parser) && product * (k + 1) < 20000) {
        passgen_env env;
        passgen_env_init(&env, passgen_random_xorshift_open(NULL, seed_of(d, n)));
        generate(&pattern, &env, 30);
        passgen_env_free(&env);
    }
    passgen_parser_free(&parser);
    passgen_pattern_free(&pattern);
    end("parser");
    free(cps);
}

static void with_description(const uint8_t *d, size_t n) {
    static const char *const kinds[] = {"", "xorshift:", "chacha20:", "chacha20-argon2:", "zero", "system"};
    if(n < 1 || n > 300) return;
    const char *kind = kinds[d[0] % 6];
    d++, n--;
    char *s = malloc(strlen(kind) + n + 1);
    strcpy(s, kind);
    memcpy(s + strlen(kind), d, n);
    s[strlen(kind) + n] = 0;
    // files are not for this target
    if(strncmp(s, "file", 4) != 0) {
        begin();
        passgen_random *r = passgen_random_open(NULL, s);
        if(r) {
            uint8_t bytes[70];
            for(int i = 0; i < 20; i++) passgen_random_read(r, bytes, sizeof(bytes));
            passgen_random_u64_max(r, 1000);
            passgen_random_free(r);
        }
        end("random source");
    }
    free(s);
}

int LLVMFuzzerInitialize(int *argc, char ***argv) {
    (void) argc;
    (void) argv;
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
    return 0;
}

int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {
    if(n < 2) return 0;
    uint8_t mode = d[0];
    d++, n--;
    if(mode < 150) {
        with_pattern(d, n);
    } else if(mode < 180) {
        with_codepoints(d, n);
    } else if(mode < 210) {
        with_wordlist(d, n);
    } else if(mode < 235) {
        with_utf8(d, n);
    } else {
        with_description(d, n);
    }
    return 0;
}
