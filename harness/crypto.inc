// The bundled primitives (monocypher), one call each, on blocks of exactly
// their size, so that a sanitizer sees any access outside of them.
static uint8_t *c_in(size_t want) {
    size_t n;
    uint8_t *p = i_copy(&n);
    if(want && n != want) _exit(EXIT_PROTOCOL);
    return p;
}

static uint8_t *c_out(size_t n) {
    uint8_t *p = malloc(n ? n : 1);
    memset(p, 0xA7, n);
    return p;
}

static void c_blake2b(void) {
    uint32_t n = i_u32();
    uint8_t mode = i_u8();
    size_t klen, len;
    uint8_t *key = i_copy(&klen);
    uint8_t *hash = c_out(n);
    uint32_t chunks = i_u32();
    if(mode == 0) {
        uint8_t *m = i_copy(&len);
        if(klen) passgen_blake2b_keyed(hash, n, key, klen, m, len);
        else passgen_blake2b(hash, n, m, len);
        free(m);
    } else {
        passgen_blake2b_ctx ctx;
        if(mode == 1 && klen == 0) passgen_blake2b_init(&ctx, n);
        else passgen_blake2b_keyed_init(&ctx, n, key, klen);
        for(uint32_t i = 0; i < chunks; i++) {
            uint8_t *m = i_copy(&len);
            passgen_blake2b_update(&ctx, m, len);
            free(m);
        }
        passgen_blake2b_final(&ctx, hash);
        uint8_t left = 0;
        for(size_t i = 0; i < sizeof(ctx); i++) left |= ((uint8_t *) &ctx)[i];
        o_u8(left);
    }
    if(mode == 0) o_u8(0);
    o_bytes(hash, n);
    free(hash);
    free(key);
}

static void c_chacha(void) {
    uint8_t kind = i_u8(), mode = i_u8();
    uint8_t *key = c_in(32), *nonce = c_in(kind == 0 ? 8 : kind == 1 ? 12 : 24);
    uint64_t ctr = i_u64();
    uint32_t calls = i_u32();
    for(uint32_t i = 0; i < calls; i++) {
        size_t len;
        uint8_t *text = i_copy(&len);
        uint8_t *res = mode == 1 ? text : c_out(len);
        const uint8_t *plain = mode == 2 ? NULL : text;
        if(kind == 0) ctr = passgen_chacha20_djb(res, plain, len, key, nonce, ctr);
        else if(kind == 1) ctr = passgen_chacha20_ietf(res, plain, len, key, nonce, (uint32_t) ctr);
        else ctr = passgen_chacha20_x(res, plain, len, key, nonce, ctr);
        o_u64(ctr);
        o_bytes(res, len);
        if(res != text) free(res);
        free(text);
    }
    free(key);
    free(nonce);
}

static void c_hchacha(void) {
    uint8_t *key = c_in(32), *in = c_in(16), *res = c_out(32);
    passgen_chacha20_h(res, key, in);
    o_bytes(res, 32);
    free(key);
    free(in);
    free(res);
}

static void c_poly(void) {
    uint8_t mode = i_u8();
    uint8_t *key = c_in(32), *mac = c_out(16);
    uint32_t chunks = i_u32();
    size_t len;
    if(mode == 0) {
        uint8_t *m = i_copy(&len);
        passgen_poly1305(mac, m, len, key);
        free(m);
        o_u8(0);
    } else {
        passgen_poly1305_ctx ctx;
        passgen_poly1305_init(&ctx, key);
        for(uint32_t i = 0; i < chunks; i++) {
            uint8_t *m = i_copy(&len);
            passgen_poly1305_update(&ctx, m, len);
            free(m);
        }
        passgen_poly1305_final(&ctx, mac);
        uint8_t left = 0;
        for(size_t i = 0; i < sizeof(ctx); i++) left |= ((uint8_t *) &ctx)[i];
        o_u8(left);
    }
    o_bytes(mac, 16);
    free(mac);
    free(key);
}

// one-shot: 0 lock, 1 unlock
static void c_aead(void) {
    uint8_t unlock = i_u8(), same = i_u8();
    uint8_t *key = c_in(32), *nonce = c_in(24), *mac = c_in(16);
    size_t alen, len;
    uint8_t *ad = i_copy(&alen), *text = i_copy(&len);
    uint8_t *res = same ? text : c_out(len);
    if(unlock) {
        o_u32(passgen_aead_unlock(res, mac, key, nonce, ad, alen, text, len));
    } else {
        passgen_aead_lock(res, mac, key, nonce, ad, alen, text, len);
        o_u32(0);
    }
    o_bytes(mac, 16);
    o_bytes(res, len);
    if(res != text) free(res);
    free(text);
    free(ad);
    free(key);
    free(nonce);
    free(mac);
}

// a stream of messages; each either written or read
static void c_stream(void) {
    uint8_t kind = i_u8();
    uint8_t *key = c_in(32), *nonce = c_in(kind == 0 ? 8 : kind == 1 ? 12 : 24);
    passgen_aead_ctx ctx;
    if(kind == 0) passgen_aead_init_djb(&ctx, key, nonce);
    else if(kind == 1) passgen_aead_init_ietf(&ctx, key, nonce);
    else passgen_aead_init_x(&ctx, key, nonce);
    free(key);
    free(nonce);
    uint32_t n = i_u32();
    for(uint32_t i = 0; i < n; i++) {
        uint8_t read = i_u8(), same = i_u8();
        uint8_t *mac = c_in(16);
        size_t alen, len;
        uint8_t *ad = i_copy(&alen), *text = i_copy(&len);
        uint8_t *res = same ? text : c_out(len);
        if(read) {
            o_u32(passgen_aead_read(&ctx, res, mac, ad, alen, text, len));
        } else {
            passgen_aead_write(&ctx, res, mac, ad, alen, text, len);
            o_u32(0);
        }
        o_bytes(mac, 16);
        o_bytes(res, len);
        if(res != text) free(res);
        free(text);
        free(ad);
        free(mac);
    }
}

// fixed-size functions: which, inputs in order, outputs in order
static void c_fixed(void) {
    uint8_t which = i_u8();
    uint8_t *a, *b, *c, *r = c_out(32), *s = c_out(64);
    switch(which) {
        case 0: a = c_in(32); passgen_x25519_public_key(r, a); o_bytes(r, 32); free(a); break;
        case 1: a = c_in(32); b = c_in(32); passgen_x25519(r, a, b); o_bytes(r, 32); free(a); free(b); break;
        case 2: a = c_in(32); passgen_x25519_to_eddsa(r, a); o_bytes(r, 32); free(a); break;
        case 3: a = c_in(32); passgen_eddsa_to_x25519(r, a); o_bytes(r, 32); free(a); break;
        case 4: a = c_in(32); b = c_in(32); passgen_x25519_inverse(r, a, b); o_bytes(r, 32); free(a); free(b); break;
        case 5: a = c_in(32); passgen_x25519_dirty_small(r, a); o_bytes(r, 32); free(a); break;
        case 6: a = c_in(32); passgen_x25519_dirty_fast(r, a); o_bytes(r, 32); free(a); break;
        case 7: a = c_in(32); passgen_eddsa_trim_scalar(r, a); o_bytes(r, 32); free(a); break;
        case 8: a = c_in(64); passgen_eddsa_reduce(r, a); o_bytes(r, 32); free(a); break;
        case 9: a = c_in(32); b = c_in(32); c = c_in(32); passgen_eddsa_mul_add(r, a, b, c); o_bytes(r, 32); free(a); free(b); free(c); break;
        case 10: a = c_in(32); passgen_eddsa_scalarbase(r, a); o_bytes(r, 32); free(a); break;
        case 11: a = c_in(64); b = c_in(32); c = c_in(32); o_u32(passgen_eddsa_check_equation(a, b, c)); free(a); free(b); free(c); break;
        case 12: a = c_in(32); passgen_elligator_map(r, a); o_bytes(r, 32); free(a); break;
        case 13: { a = c_in(32); uint8_t tweak = i_u8(); o_u32(passgen_elligator_rev(r, a, tweak)); o_bytes(r, 32); free(a); break; }
        case 14: a = c_in(32); b = c_out(32); passgen_elligator_key_pair(r, b, a); o_bytes(r, 32); o_bytes(b, 32); o_bytes(a, 32); free(a); free(b); break;
        case 15: a = c_in(32); passgen_eddsa_key_pair(s, r, a); o_bytes(s, 64); o_bytes(r, 32); o_bytes(a, 32); free(a); break;
        case 16: a = c_in(16); b = c_in(16); o_u32(passgen_verify16(a, b)); free(a); free(b); break;
        case 17: a = c_in(32); b = c_in(32); o_u32(passgen_verify32(a, b)); free(a); free(b); break;
        case 18: a = c_in(64); b = c_in(64); o_u32(passgen_verify64(a, b)); free(a); free(b); break;
        // the output is the input
        case 19: a = c_in(32); b = c_in(32); passgen_x25519(b, a, b); o_bytes(b, 32); free(a); free(b); break;
        case 20: a = c_in(32); passgen_eddsa_trim_scalar(a, a); o_bytes(a, 32); free(a); break;
        default: _exit(EXIT_PROTOCOL);
    }
    free(r);
    free(s);
}

static void c_sign(void) {
    uint8_t *secret = c_in(64), *sig = c_out(64);
    size_t len;
    uint8_t *m = i_copy(&len);
    passgen_eddsa_sign(sig, secret, m, len);
    o_bytes(sig, 64);
    free(m);
    free(sig);
    free(secret);
}

static void c_check(void) {
    uint8_t *sig = c_in(64), *pub = c_in(32);
    size_t len;
    uint8_t *m = i_copy(&len);
    o_u32(passgen_eddsa_check(sig, pub, m, len));
    free(m);
    free(sig);
    free(pub);
}

static void c_wipe(void) {
    size_t len;
    uint8_t *m = i_copy(&len);
    uint32_t at = i_u32(), n = i_u32();
    passgen_wipe(m + at, n);
    o_bytes(m, len);
    free(m);
}

// A message of zeros, as long as a caller can give, and then a rest.
static void c_zeros(void) {
    uint64_t size = i_u64();
    uint32_t calls = i_u32();
    size_t len;
    uint8_t *rest = i_copy(&len), *zeros = calloc(size ? size : 1, 1), hash[64];
    if(!zeros) _exit(EXIT_PROTOCOL);
    passgen_blake2b_ctx ctx;
    passgen_blake2b_init(&ctx, 64);
    for(uint32_t i = 0; i < calls; i++) passgen_blake2b_update(&ctx, zeros, size);
    passgen_blake2b_update(&ctx, rest, len);
    passgen_blake2b_final(&ctx, hash);
    o_bytes(hash, 64);
    free(zeros);
    free(rest);
}

static void cmd_crypto(void) {
    switch(i_u8()) {
        case 0: c_blake2b(); break;
        case 1: c_chacha(); break;
        case 2: c_hchacha(); break;
        case 3: c_poly(); break;
        case 4: c_aead(); break;
        case 5: c_stream(); break;
        case 6: c_fixed(); break;
        case 7: c_sign(); break;
        case 8: c_check(); break;
        case 9: c_wipe(); break;
        case 10: c_zeros(); break;
        default: _exit(EXIT_PROTOCOL);
    }
}
