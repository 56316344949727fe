From c717ef608d6f0b413d8d012a0d702070d5272d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:13 +0000
Subject: [PATCH 01/46] fix: random: deliver the unread bytes when a read
 crosses a refill

A read which needed more bytes than are left in the buffer copied the first
bytes of the buffer (already delivered earlier) instead of the unread rest.
---
 src/random/random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/random/random.c b/src/random/random.c
index b2f601d..b37bba9 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -42,7 +42,7 @@ void passgen_random_read(passgen_random *random, void *data, size_t bytes) {
         } else {
             // if we don't have enough, copy over whatever we have and
             // reload.
-            memcpy(data, random->buffer, left);
+            memcpy(data, &random->buffer[random->pos], left);
             passgen_random_reload(random);
 
             // if there's more to be read, recurse.
-- 
2.43.0


From 3134888ea481ac7909070e9816de288732ab0a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:36 +0000
Subject: [PATCH 02/46] fix: random: stop on a short read when refilling in
 every build

The refill only checked the number of bytes read with an assertion that is
compiled out of release builds, which then went on to use stale or
uninitialised buffer contents as random data.
---
 src/random/random.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/random/random.c b/src/random/random.c
index b37bba9..035bbb8 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -21,10 +21,17 @@ void passgen_random_reload(passgen_random *random) {
     // read random data.
     size_t bytes =
         random->read(random->context, &random->buffer, sizeof(random->buffer));
-    (void) bytes;
 
     // make sure we've read enough.
-    passgen_assert(bytes == sizeof(random->buffer));
+    if(bytes != sizeof(random->buffer)) {
+        fprintf(
+            stderr,
+            "Error reading from randomness source: trying to read %zu "
+            "bytes but got %zu\n",
+            sizeof(random->buffer),
+            bytes);
+        abort();
+    }
 
     // reset position in ring buffer.
     random->pos = 0;
-- 
2.43.0


From 14ce40132652199dfc56211babc92cc6c55bc1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:43 +0000
Subject: [PATCH 03/46] fix: hashmap: removing from a map that never held an
 entry

The position of the key was computed modulo a capacity of zero.
---
 src/container/hashmap.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/container/hashmap.c b/src/container/hashmap.c
index a468123..9e7ccd2 100644
--- a/src/container/hashmap.c
+++ b/src/container/hashmap.c
@@ -173,6 +173,11 @@ passgen_hashmap_insert(passgen_hashmap *map, const void *key, void *value) {
 
 passgen_hashmap_entry
 passgen_hashmap_remove(passgen_hashmap *map, const void *key) {
+    // make sure the hashmap is not empty
+    if(!map->data) {
+        return (passgen_hashmap_entry){NULL, NULL};
+    }
+
     size_t hash;
 
     // if this key exists
-- 
2.43.0


From 29d4c41524815f8138993281b315892a7265262c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:28 +0000
Subject: [PATCH 04/46] fix: hashmap: never hold a key twice

Insertion took a free first position without looking whether the key is
held at its second position, which happens once another key was removed.
---
 src/container/hashmap.c | 43 ++++++++++++++++++-----------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/src/container/hashmap.c b/src/container/hashmap.c
index 9e7ccd2..577a582 100644
--- a/src/container/hashmap.c
+++ b/src/container/hashmap.c
@@ -125,6 +125,15 @@ passgen_hashmap_insert(passgen_hashmap *map, const void *key, void *value) {
         passgen_hashmap_realloc(map, hashmap_sizes[0]);
     }
 
+    // if the key exists, at either of its positions, replace the entry
+    passgen_hashmap_entry *existing = passgen_hashmap_lookup(map, key);
+    if(existing) {
+        passgen_hashmap_entry entry = *existing;
+        existing->key = key;
+        existing->value = value;
+        return entry;
+    }
+
     size_t hash;
 
     hash = passgen_hashmap_position(map, key, true);
@@ -133,18 +142,11 @@ passgen_hashmap_insert(passgen_hashmap *map, const void *key, void *value) {
         map->data[hash].value = value;
         map->len += 1;
         return (passgen_hashmap_entry){NULL, NULL};
-    } else {
-        if(map->context->equal(map, map->data[hash].key, key)) {
-            passgen_hashmap_entry entry = map->data[hash];
-            map->data[hash].key = key;
-            map->data[hash].value = value;
-            return entry;
-        } else if(passgen_hashmap_move(map, hash)) {
-            map->data[hash].key = key;
-            map->data[hash].value = value;
-            map->len += 1;
-            return (passgen_hashmap_entry){NULL, NULL};
-        }
+    } else if(passgen_hashmap_move(map, hash)) {
+        map->data[hash].key = key;
+        map->data[hash].value = value;
+        map->len += 1;
+        return (passgen_hashmap_entry){NULL, NULL};
     }
 
     hash = passgen_hashmap_position(map, key, false);
@@ -153,18 +155,11 @@ passgen_hashmap_insert(passgen_hashmap *map, const void *key, void *value) {
         map->data[hash].value = value;
         map->len += 1;
         return (passgen_hashmap_entry){NULL, NULL};
-    } else {
-        if(map->context->equal(map, map->data[hash].key, key)) {
-            passgen_hashmap_entry entry = map->data[hash];
-            map->data[hash].key = key;
-            map->data[hash].value = value;
-            return entry;
-        } else if(passgen_hashmap_move(map, hash)) {
-            map->data[hash].key = key;
-            map->data[hash].value = value;
-            map->len += 1;
-            return (passgen_hashmap_entry){NULL, NULL};
-        }
+    } else if(passgen_hashmap_move(map, hash)) {
+        map->data[hash].key = key;
+        map->data[hash].value = value;
+        map->len += 1;
+        return (passgen_hashmap_entry){NULL, NULL};
     }
 
     passgen_hashmap_realloc(map, next_capacity(map));
-- 
2.43.0


From d9441e0f2bd76de5f6743dd3ad423d41aa1d3f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:42 +0000
Subject: [PATCH 05/46] fix: parser: do not truncate codepoints to a char

Characters whose low byte equals that of a metacharacter, such as U+0128 or
U+017C, were taken for that metacharacter.
---
 src/parser/parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 715562f..02ff7a6 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -237,7 +237,7 @@ int passgen_parse_group(
 
     if(codepoint & PASSGEN_TOKEN_ESCAPED_BIT) {
         codepoint &= ~PASSGEN_TOKEN_ESCAPED_BIT;
-        switch((char) codepoint) {
+        switch(codepoint) {
             case '|':
             case '(':
             case ')':
@@ -262,7 +262,7 @@ int passgen_parse_group(
                 return -1;
         }
     } else {
-        switch((char) codepoint) {
+        switch(codepoint) {
             case '|':
                 if(state->data.group.segment->multiplier > 0) {
                     // create new segment and parser state
-- 
2.43.0


From f3dd141beecb92bdb13c90d2e8ee38e7345bf8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:22 +0000
Subject: [PATCH 06/46] fix: parser: keep the sum of the multipliers of a group
 right

A segment recycled after one with a zero multiplier was not counted, so that
({0}a|b) lost its last alternative or chose none at all, and a second leading
multiplier did not take back the first one.
---
 src/parser/parser.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 02ff7a6..458913c 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -273,6 +273,8 @@ int passgen_parse_group(
                     // if the previous segment had a zero multiplier, recycle it
                     passgen_pattern_segment_free(state->data.group.segment);
                     passgen_pattern_segment_init(state->data.group.segment);
+                    state->data.group.group->multiplier_sum +=
+                        state->data.group.segment->multiplier;
                 }
                 return 0;
             case ')':
@@ -308,8 +310,9 @@ int passgen_parse_group(
                     passgen_parser_state_push_repeat(parser, &item->repeat);
                     return 0;
                 } else {
+                    state->data.group.group->multiplier_sum -=
+                        state->data.group.segment->multiplier;
                     state->data.group.segment->multiplier = 0;
-                    state->data.group.group->multiplier_sum -= 1;
                     passgen_parser_state_push_multiplier(
                         parser,
                         &state->data.group.segment->multiplier,
-- 
2.43.0


From 16d92f3213264905908552651bd43a29d1959def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:29 +0000
Subject: [PATCH 07/46] fix: parser: accept modifiers after an empty group

The empty group was removed before its modifier was read, which then applied
to the item in front of it, became the multiplier of the segment, or was
rejected.
---
 src/parser/parser.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 458913c..c909e31 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -233,7 +233,10 @@ int passgen_parse_group(
     passgen_pattern_special *special;
     passgen_pattern_item *item;
 
-    passgen_pattern_segment_clean(state->data.group.segment);
+    // remove an empty group, unless this is a modifier which belongs to it
+    if(codepoint != '{' && codepoint != '?') {
+        passgen_pattern_segment_clean(state->data.group.segment);
+    }
 
     if(codepoint & PASSGEN_TOKEN_ESCAPED_BIT) {
         codepoint &= ~PASSGEN_TOKEN_ESCAPED_BIT;
-- 
2.43.0


From 29d01ee8d9329963a86db8006dddeea793920155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:54 +0000
Subject: [PATCH 08/46] fix: parser: validate an escaped end of a set range

The end of a range kept the bit that marks an escaped token, giving a range of
about a billion values, most of them no Unicode characters.
---
 src/parser/parser.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index c909e31..49e91e0 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -414,11 +414,20 @@ int passgen_parse_set_range(
         return -1;
     }
 
-    if(token->codepoint < state->data.set.range->start) {
+    uint32_t codepoint = token->codepoint;
+    if(codepoint & PASSGEN_TOKEN_ESCAPED_BIT) {
+        // no reason to expect an escaped token here unless it's a dash.
+        codepoint &= ~PASSGEN_TOKEN_ESCAPED_BIT;
+        if(codepoint != '-') {
+            return -1;
+        }
+    }
+
+    if(codepoint < state->data.set.range->start) {
         return -1;
     }
 
-    state->data.set.range->end = token->codepoint;
+    state->data.set.range->end = codepoint;
     state->type = PASSGEN_PARSER_SET;
 
     return 0;
-- 
2.43.0


From 8283d2615ecd058c8e078bdc7fabcf2ff24c2f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:00 +0000
Subject: [PATCH 09/46] fix: parser: accept an escaped closing bracket in a set

This is documented (token.h) as the way to put a closing bracket in a set, but
was rejected.
---
 src/parser/parser.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 49e91e0..871f3c2 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -385,9 +385,11 @@ int passgen_parse_set(
 
     uint32_t codepoint = token->codepoint;
     if(codepoint & PASSGEN_TOKEN_ESCAPED_BIT) {
-        // no reason to expect an escaped token here unless it's a dash.
+        // no reason to expect an escaped token here unless it's a dash or a
+        // closing bracket.
         switch(codepoint & ~PASSGEN_TOKEN_ESCAPED_BIT) {
             case '-':
+            case ']':
                 codepoint &= ~PASSGEN_TOKEN_ESCAPED_BIT;
                 break;
             default:
@@ -416,9 +418,10 @@ int passgen_parse_set_range(
 
     uint32_t codepoint = token->codepoint;
     if(codepoint & PASSGEN_TOKEN_ESCAPED_BIT) {
-        // no reason to expect an escaped token here unless it's a dash.
+        // no reason to expect an escaped token here unless it's a dash or a
+        // closing bracket.
         codepoint &= ~PASSGEN_TOKEN_ESCAPED_BIT;
-        if(codepoint != '-') {
+        if(codepoint != '-' && codepoint != ']') {
             return -1;
         }
     }
-- 
2.43.0


From 0f59004d7033d3dd317d8c05670288ded2d53d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:36 +0000
Subject: [PATCH 10/46] fix: parser: reject a repeat range with an end lower
 than its start

It made the number of repetitions underflow, so that generation produced an
enormous output or never ended.
---
 src/parser/parser.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 871f3c2..427da97 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -492,6 +492,11 @@ int passgen_parse_repeat_range(
     passgen_token *token,
     passgen_parser_state *state) {
     if(token->codepoint == '}') {
+        // error, the range does not hold any number of repetitions
+        if(state->data.repeat.repeat->max < state->data.repeat.repeat->min) {
+            return -1;
+        }
+
         passgen_stack_pop(&parser->state, NULL);
         return 0;
     }
-- 
2.43.0


From 45ec745674ed10c5bdea0dc98695ba02f419ed85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:52 +0000
Subject: [PATCH 11/46] fix: parser: reject counts that do not fit

Repeat counts and multipliers wrapped around silently, so that a pattern asking
for 18446744073709551617 repetitions produced one.
---
 src/parser/parser.c | 44 ++++++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 427da97..377a5f1 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -267,6 +267,11 @@ int passgen_parse_group(
     } else {
         switch(codepoint) {
             case '|':
+                // error, the sum of the multipliers does not fit
+                if(state->data.group.group->multiplier_sum == SIZE_MAX) {
+                    return -1;
+                }
+
                 if(state->data.group.segment->multiplier > 0) {
                     // create new segment and parser state
                     state->data.group.segment =
@@ -436,11 +441,29 @@ int passgen_parse_set_range(
     return 0;
 }
 
+// append a decimal digit to the value, fails if the result does not fit.
+static int append_digit(size_t *value, uint8_t digit) {
+    if(*value > (SIZE_MAX - digit) / 10) {
+        return -1;
+    }
+
+    *value *= 10;
+    *value += digit;
+
+    return 0;
+}
+
 int passgen_parse_multiplier(
     passgen_parser *parser,
     passgen_token *token,
     passgen_parser_state *state) {
     if(token->codepoint == '}') {
+        // error, the sum of the multipliers does not fit
+        if(*state->data.multiplier.value >
+           SIZE_MAX - *state->data.multiplier.sum) {
+            return -1;
+        }
+
         *state->data.multiplier.sum += *state->data.multiplier.value;
         passgen_stack_pop(&parser->state, NULL);
         return 0;
@@ -449,10 +472,7 @@ int passgen_parse_multiplier(
     if(token->codepoint >= '0' && token->codepoint <= '9') {
         uint8_t digit = token->codepoint - '0';
 
-        *state->data.multiplier.value *= 10;
-        *state->data.multiplier.value += digit;
-
-        return 0;
+        return append_digit(state->data.multiplier.value, digit);
     }
 
     return -1;
@@ -478,10 +498,7 @@ int passgen_parse_repeat(
     if(token->codepoint >= '0' && token->codepoint <= '9') {
         uint8_t digit = token->codepoint - '0';
 
-        state->data.repeat.repeat->min *= 10;
-        state->data.repeat.repeat->min += digit;
-
-        return 0;
+        return append_digit(&state->data.repeat.repeat->min, digit);
     }
 
     return -1;
@@ -497,6 +514,12 @@ int passgen_parse_repeat_range(
             return -1;
         }
 
+        // error, the number of choices does not fit
+        if(state->data.repeat.repeat->max - state->data.repeat.repeat->min ==
+           SIZE_MAX) {
+            return -1;
+        }
+
         passgen_stack_pop(&parser->state, NULL);
         return 0;
     }
@@ -504,10 +527,7 @@ int passgen_parse_repeat_range(
     if(token->codepoint >= '0' && token->codepoint <= '9') {
         uint8_t digit = token->codepoint - '0';
 
-        state->data.repeat.repeat->max *= 10;
-        state->data.repeat.repeat->max += digit;
-
-        return 0;
+        return append_digit(&state->data.repeat.repeat->max, digit);
     }
 
     return -1;
-- 
2.43.0


From 4f06476693fdcf398e4a0b6a4c62ac32172a7f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:30 +0000
Subject: [PATCH 12/46] fix: utf8: reject input that ends in the middle of a
 character

The incomplete character was dropped silently, so a pattern could be accepted
although it is not valid UTF-8.
---
 src/util/utf8.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/util/utf8.c b/src/util/utf8.c
index 7d7cac5..751ab02 100644
--- a/src/util/utf8.c
+++ b/src/util/utf8.c
@@ -75,6 +75,11 @@ int passgen_utf8_decode(
         input_offset += 1;
     }
 
+    // the input ended in the middle of a character
+    if(state != UTF8_ACCEPT) {
+        return PASSGEN_UTF8_INVALID_CHAR;
+    }
+
     *output += output_offset;
     *input += input_offset;
 
-- 
2.43.0


From 926a7ff00a572da811410fcf910e048ce8fa71ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:35 +0000
Subject: [PATCH 13/46] fix: report invalid UTF-8 in a pattern where it is

The reported offset was that of the chunk of 256 characters the pattern is
decoded in, and an earlier error in the same chunk was not reported at all.
---
 src/passgen.c   | 16 ++++++++--------
 src/util/utf8.c |  9 ++++++---
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/passgen.c b/src/passgen.c
index d20c4b6..ae667ae 100644
--- a/src/passgen.c
+++ b/src/passgen.c
@@ -43,14 +43,6 @@ int passgen_parse(
         pattern_pos = pattern_cur - &pattern[0];
         pattern_pos_total += pattern_pos;
 
-        // make sure utf8 decoding was successful
-        if(decode_ret < PASSGEN_UTF8_SUCCESS) {
-            passgen_error_init(error, passgen_utf8_error(decode_ret));
-            passgen_error_offset_set(error, pattern_pos_total, pattern_raw_pos);
-            passgen_parser_free(&parser);
-            return -1;
-        }
-
         // parse tokens and pattern
         for(size_t i = 0; i < pattern_pos; i++) {
             int ret = passgen_token_parse(
@@ -86,6 +78,14 @@ int passgen_parse(
                 assert(ret == 0);
             }
         }
+
+        // make sure utf8 decoding was successful
+        if(decode_ret < PASSGEN_UTF8_SUCCESS) {
+            passgen_error_init(error, passgen_utf8_error(decode_ret));
+            passgen_error_offset_set(error, pattern_pos_total, pattern_raw_pos);
+            passgen_parser_free(&parser);
+            return -1;
+        }
     } while(decode_ret > PASSGEN_UTF8_SUCCESS);
 
     // make sure we aren't still parsing tokens
diff --git a/src/util/utf8.c b/src/util/utf8.c
index 751ab02..a4653b5 100644
--- a/src/util/utf8.c
+++ b/src/util/utf8.c
@@ -55,6 +55,9 @@ int passgen_utf8_decode(
             utf8_decode(&state, &codepoint, (*input)[input_offset]);
 
         if(status == UTF8_REJECT) {
+            // everything up to the offending character was decoded
+            *output += output_offset;
+            *input += input_offset - codepoint_width;
             return PASSGEN_UTF8_INVALID_CHAR;
         }
 
@@ -75,14 +78,14 @@ int passgen_utf8_decode(
         input_offset += 1;
     }
 
+    *output += output_offset;
+    *input += input_offset - codepoint_width;
+
     // the input ended in the middle of a character
     if(state != UTF8_ACCEPT) {
         return PASSGEN_UTF8_INVALID_CHAR;
     }
 
-    *output += output_offset;
-    *input += input_offset;
-
     if(input_offset != input_len) {
         return PASSGEN_UTF8_OUTPUT_SIZE;
     }
-- 
2.43.0


From f3ab65968a568f10f33a8ed2447d8f8d860cb5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:58 +0000
Subject: [PATCH 14/46] fix: utf8: encode within any output size

The space check underflowed for outputs of less than four bytes, so that the
encoder wrote beyond them, and refused characters that do fit at the end.
---
 src/util/utf8.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/util/utf8.c b/src/util/utf8.c
index a4653b5..b7e5f58 100644
--- a/src/util/utf8.c
+++ b/src/util/utf8.c
@@ -1,4 +1,5 @@
 #include "passgen/util/utf8.h"
+#include <string.h>
 
 // Copyright (c) 2008-2009 Bjoern Hoehrmann <bjoern@hoehrmann.de>
 // See http://bjoern.hoehrmann.de/utf-8/decoder/dfa/ for details.
@@ -144,12 +145,19 @@ int passgen_utf8_encode(
     const uint32_t *in,
     size_t in_len,
     size_t *in_pos) {
-    while((*in_pos < in_len) && (*out_pos < (out_len - 4))) {
-        int ret = passgen_utf8_encode_codepoint(&out[*out_pos], in[*in_pos]);
+    while(*in_pos < in_len) {
+        uint8_t encoded[4];
+        int ret = passgen_utf8_encode_codepoint(&encoded[0], in[*in_pos]);
         if(ret < 0) {
             return ret;
         }
 
+        // make sure it fits.
+        if((size_t) ret > (out_len - *out_pos)) {
+            break;
+        }
+
+        memcpy(&out[*out_pos], &encoded[0], ret);
         *in_pos += 1;
         *out_pos += ret;
     }
-- 
2.43.0


From 6cad1958ae177cd5ed10475e93d740a4047bba7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:55 +0000
Subject: [PATCH 15/46] fix: parser: reject Unicode escapes that denote no
 character

Surrogates and values above U+10FFFF were accepted and could not be encoded
when generating, and an empty payload stood for a NUL character.
---
 src/parser/parser.c | 8 ++++++++
 src/parser/token.c  | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 377a5f1..4133032 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -15,6 +15,7 @@
 #include "passgen/pattern/segment.h"
 #include "passgen/pattern/segment_item.h"
 #include "passgen/pattern/set.h"
+#include "passgen/util/utf8.h"
 
 int passgen_parse_group(
     struct passgen_parser *parser,
@@ -189,6 +190,13 @@ int passgen_parse_token(passgen_parser *parser, passgen_token *token) {
         return -1;
     }
 
+    // only Unicode scalar values are characters, surrogates are not.
+    uint32_t codepoint = token->codepoint & ~PASSGEN_TOKEN_ESCAPED_BIT;
+    if(codepoint > PASSGEN_UNICODE_MAX ||
+       (codepoint >= 0xD800 && codepoint <= 0xDFFF)) {
+        return -1;
+    }
+
     switch(state->type) {
         case PASSGEN_PARSER_GROUP:
             return passgen_parse_group(parser, token, state);
diff --git a/src/parser/token.c b/src/parser/token.c
index a032cda..633b16b 100644
--- a/src/parser/token.c
+++ b/src/parser/token.c
@@ -114,6 +114,13 @@ static inline void token_parse_unicode_payload(
     // once we read the closing brace, the payload is over and we can emit the
     // token.
     if(codepoint == '}') {
+        // the payload must not be empty.
+        if(parser->data.unicode_payload.length == 0) {
+            parser->state = PASSGEN_TOKEN_ERROR_UNICODE_PAYLOAD;
+
+            return;
+        }
+
         token->codepoint = parser->data.unicode_payload.codepoint;
         parser->state = PASSGEN_TOKEN_INIT;
 
-- 
2.43.0


From 3af1a4ea4c20a675bff59d39d6ee18655c3d3e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:00 +0000
Subject: [PATCH 16/46] fix: parser: leave the surrogates out of a set range

A range around them had members that are not characters and cannot be encoded
as valid UTF-8.
---
 src/parser/parser.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 4133032..b739d01 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -443,6 +443,14 @@ int passgen_parse_set_range(
         return -1;
     }
 
+    // leave out the surrogates, they are not characters.
+    if(state->data.set.range->start < 0xD800 && codepoint > 0xDFFF) {
+        state->data.set.range->end = 0xD7FF;
+        state->data.set.range =
+            passgen_pattern_set_range_append(state->data.set.set);
+        state->data.set.range->start = 0xE000;
+    }
+
     state->data.set.range->end = codepoint;
     state->type = PASSGEN_PARSER_SET;
 
-- 
2.43.0


From 5834658297eb9fe7aeae92ec730eddbdc22ee494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:13 +0000
Subject: [PATCH 17/46] fix: generate: count the entropy of optional items

Whether an optional item is emitted is a choice of one bit, which was missing
in the reported entropy.
---
 src/generate.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/generate.c b/src/generate.c
index e6dacb6..606d2e3 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -456,6 +456,11 @@ static int passgen_generate_item(
     // if it is a maybe (has a question mark following it), decide first if we
     // want to emit it or not.
     if(item->maybe) {
+        // keep track of entropy
+        if(context->entropy) {
+            *context->entropy *= 2;
+        }
+
         if(!passgen_random_bool(context->env->random)) {
             return 0;
         }
-- 
2.43.0


From a83ff8d08ce0824386f47e80db65e0d8a4d823a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:39 +0000
Subject: [PATCH 18/46] fix: generate: markov words of any length

The characters of a generated word were collected in an array on the stack
that holds 128 of them, without a check, so longer words overwrote the stack.
---
 src/generate.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/generate.c b/src/generate.c
index 606d2e3..4e6d87d 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -370,23 +370,26 @@ static int passgen_generate_special_markov(
         passgen_wordlist_parse_markov(wordlist);
     }
     passgen_markov *markov = &wordlist->markov;
-    uint32_t word[128];
-    size_t pos = markov->level;
-    memset(word, 0, pos * sizeof(uint32_t));
     double *entropy = context->entropy ? &*context->entropy : NULL;
-    do {
-        word[pos] = passgen_markov_generate(
+
+    // the context are the last codepoints, initially padding
+    size_t level = markov->level;
+    uint32_t word[level];
+    memset(word, 0, level * sizeof(uint32_t));
+    while(true) {
+        uint32_t codepoint = passgen_markov_generate(
             markov,
-            &word[pos - markov->level],
+            &word[0],
             context->env->random,
             entropy);
-        pos++;
-    } while(word[pos - 1]);
+        if(!codepoint) {
+            break;
+        }
+
+        try(emit(context, codepoint));
 
-    pos = markov->level;
-    while(word[pos]) {
-        try(emit(context, word[pos]));
-        pos++;
+        memmove(&word[0], &word[1], (level - 1) * sizeof(uint32_t));
+        word[level - 1] = codepoint;
     }
 
     return 0;
-- 
2.43.0


From 9e550a1dd02106907490abe27a2d9be46493e1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:35 +0000
Subject: [PATCH 19/46] fix: wordlist: read files of unknown size

The size was taken from seeking to the end, which fails for pipes and reports
nonsense for directories: the buffer was allocated with a size of zero and
written out of bounds. After a failed read the wordlist was left partly
uninitialised.
---
 src/wordlist.c | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/wordlist.c b/src/wordlist.c
index cefec06..73ecec4 100644
--- a/src/wordlist.c
+++ b/src/wordlist.c
@@ -17,6 +17,10 @@ void passgen_wordlist_init(
     wordlist->parsed_markov = false;
     wordlist->file = file;
     wordlist->should_close_file = true;
+    wordlist->data = NULL;
+    wordlist->size = 0;
+    wordlist->words = NULL;
+    wordlist->count = 0;
     passgen_markov_init(&wordlist->markov, markov_length);
 }
 
@@ -70,18 +74,31 @@ void passgen_wordlist_load(
 }
 
 int passgen_wordlist_read(passgen_wordlist *wordlist, FILE *file) {
-    // get size of file
-    fseek(file, 0, SEEK_END);
-    wordlist->size = ftell(file);
+    // allocate buffer to hold file
+    size_t capacity = ALLOC_INITIAL;
+    wordlist->size = 0;
+    wordlist->data = malloc(capacity);
+    passgen_assert(wordlist->data);
+
+    // start at the beginning, if this file supports seeking
     fseek(file, 0, SEEK_SET);
 
-    // allocate buffer to hold entire file and read in (plus zero termination)
-    wordlist->data = malloc(wordlist->size + 1);
-    passgen_assert(wordlist->data);
+    // read in entire wordlist, leaving space for the zero termination
+    size_t read;
+    while((read = fread(
+               &wordlist->data[wordlist->size],
+               1,
+               capacity - wordlist->size - 1,
+               file))) {
+        wordlist->size += read;
+        if(wordlist->size + 1 == capacity) {
+            capacity *= ALLOC_INCREASE;
+            wordlist->data = realloc(wordlist->data, capacity);
+            passgen_assert(wordlist->data);
+        }
+    }
 
-    // read in entire wordlist
-    size_t read = fread(wordlist->data, 1, wordlist->size, file);
-    if(read != wordlist->size) {
+    if(ferror(file)) {
         return 1;
     }
 
-- 
2.43.0


From 11b20d80654c259fbe2ac0449ae4de65dca4e74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:42 +0000
Subject: [PATCH 20/46] fix: wordlist: train markov chains on words of any
 length and content

A word of more than 256 characters, or one that is not valid UTF-8, failed an
assertion, or was cut short in a release build.
---
 src/wordlist.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/wordlist.c b/src/wordlist.c
index 73ecec4..301a2f3 100644
--- a/src/wordlist.c
+++ b/src/wordlist.c
@@ -37,8 +37,18 @@ void passgen_wordlist_parse_markov(passgen_wordlist *wordlist) {
     passgen_assert(!wordlist->parsed_markov);
     wordlist->parsed_markov = true;
 
-    size_t unicode_buffer_len = 256;
-    uint32_t unicode_buffer[unicode_buffer_len];
+    // a word does not have more codepoints than bytes
+    size_t unicode_buffer_len = 0;
+    for(size_t i = 0; i < wordlist->count; i++) {
+        size_t word_length = strlen(wordlist->words[i]);
+        if(word_length > unicode_buffer_len) {
+            unicode_buffer_len = word_length;
+        }
+    }
+
+    uint32_t *unicode_buffer = malloc(
+        sizeof(uint32_t) * (unicode_buffer_len + 1));
+    passgen_assert(unicode_buffer);
     for(size_t i = 0; i < wordlist->count; i++) {
         uint32_t *unicode_buffer_pos = &unicode_buffer[0];
         const uint8_t *word = (const uint8_t *) wordlist->words[i];
@@ -52,8 +62,10 @@ void passgen_wordlist_parse_markov(passgen_wordlist *wordlist) {
             &word,
             word_length);
 
-        // make sure the conversion worked
-        passgen_assert(ret == PASSGEN_UTF8_SUCCESS);
+        // skip words that are not valid utf8
+        if(ret != PASSGEN_UTF8_SUCCESS) {
+            continue;
+        }
 
         // add word to markov chain
         passgen_markov_add(
@@ -62,6 +74,8 @@ void passgen_wordlist_parse_markov(passgen_wordlist *wordlist) {
             unicode_buffer_pos - &unicode_buffer[0],
             1);
     }
+
+    free(unicode_buffer);
 }
 
 void passgen_wordlist_load(
-- 
2.43.0


From a3b538d5be37145e04b09d5582473280ac344de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:49 +0000
Subject: [PATCH 21/46] fix: generate: emit words of more than 128 characters
 in full

Choosing such a word made the generation fail.
---
 src/generate.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/generate.c b/src/generate.c
index 4e6d87d..807d733 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -412,15 +412,24 @@ static int passgen_generate_special_wordlist(
     const unsigned char *word = passgen_wordlist_random(wordlist, context->env->random);
 
     // UTF8-decode word and write codepoints
-    // TODO: handle longer words
-    size_t word_len = strlen(word);
-    const char *word_pos = &word;
-    uint32_t codepoints[128];
-    uint32_t *codepoints_pos = &codepoints[0];
-    try(passgen_utf8_decode(&codepoints_pos, 128, NULL, word_pos, word_len));
-    for(int i = 0; &codepoints[i] < codepoints_pos; i++) {
-        try(emit(context, codepoints[i]));
-    }
+    const unsigned char *word_end = word + strlen((const char *) word);
+    int ret;
+    do {
+        uint32_t codepoints[128];
+        uint32_t *codepoints_pos = &codepoints[0];
+        ret = passgen_utf8_decode(
+            &codepoints_pos,
+            128,
+            NULL,
+            &word,
+            word_end - word);
+        if(ret < 0) {
+            return ret;
+        }
+        for(int i = 0; &codepoints[i] < codepoints_pos; i++) {
+            try(emit(context, codepoints[i]));
+        }
+    } while(ret > 0);
 
     if(context->entropy) {
         *context->entropy *= passgen_wordlist_count(wordlist);
-- 
2.43.0


From bde24d5d7b1c33596c61b3c361983d357ff8b41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:55 +0000
Subject: [PATCH 22/46] fix: generate: fail on empty and unreadable wordlists

Picking a word or a character from an empty wordlist failed an assertion, or
never ended in a release build, and a failure to read it was ignored.
---
 src/generate.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/generate.c b/src/generate.c
index 807d733..5d7ee23 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -364,12 +364,15 @@ static int passgen_generate_special_markov(
     }
     passgen_wordlist *wordlist = entry->value;
     if(!wordlist->parsed) {
-        passgen_wordlist_parse(wordlist);
+        try(passgen_wordlist_parse(wordlist));
     }
     if(!wordlist->parsed_markov) {
         passgen_wordlist_parse_markov(wordlist);
     }
     passgen_markov *markov = &wordlist->markov;
+    if(!markov->count) {
+        return -1;
+    }
     double *entropy = context->entropy ? &*context->entropy : NULL;
 
     // the context are the last codepoints, initially padding
@@ -405,7 +408,12 @@ static int passgen_generate_special_wordlist(
     }
     passgen_wordlist *wordlist = entry->value;
     if(!wordlist->parsed) {
-        passgen_wordlist_parse(wordlist);
+        try(passgen_wordlist_parse(wordlist));
+    }
+
+    // there is nothing to pick from in an empty (or unreadable) wordlist
+    if(!wordlist->count) {
+        return -1;
     }
 
     // pick word at random
-- 
2.43.0


From b5709a7482d4ad050ddf70d2cd0ea832ef09c8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:00 +0000
Subject: [PATCH 23/46] fix: env: free the wordlist that is replaced by one of
 the same name

---
 src/env.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/env.c b/src/env.c
index 756ab4f..73ad5f4 100644
--- a/src/env.c
+++ b/src/env.c
@@ -38,7 +38,11 @@ int passgen_env_wordlist_add(
     FILE *file,
     size_t markov_length) {
     passgen_wordlist *wordlist = malloc(sizeof(passgen_wordlist));
-    passgen_hashmap_insert(&env->wordlists, name, wordlist);
+    passgen_hashmap_entry previous =
+        passgen_hashmap_insert(&env->wordlists, name, wordlist);
+    if(previous.key) {
+        wordlist_entry_free(NULL, &previous);
+    }
     passgen_wordlist_init(wordlist, file, markov_length);
 
     return 0;
-- 
2.43.0


From a9bc1800b87d8cf2ee1a6f0824845d4e3aeec3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:23 +0000
Subject: [PATCH 24/46] fix: parser: reject a special without a name

Generating from such a pattern dereferenced a null pointer.
---
 src/parser/parser.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index b739d01..6a265d6 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -570,6 +570,11 @@ int passgen_parse_special_name(
     (void) parser;
 
     if(token->codepoint == '}') {
+        // error, there is no name
+        if(state->data.special.special->parameters_len == 0) {
+            return -1;
+        }
+
         passgen_stack_pop(&parser->state, NULL);
     } else {
         passgen_pattern_special_push(
-- 
2.43.0


From de48f1db63c6713ecbe1b4b922ece515faa67b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:28 +0000
Subject: [PATCH 25/46] fix: generate: escape all control characters in JSON

Control characters without a short escape were written as they are, which is
not valid JSON, and a failure to encode a character was not noticed.
---
 src/generate.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/generate.c b/src/generate.c
index 5d7ee23..41baa70 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -17,6 +17,7 @@
 #include "passgen/wordlist.h"
 #include "try.h"
 
+#include <stdio.h>
 #include <string.h>
 
 typedef struct {
@@ -156,8 +157,8 @@ passgen_generate_write_buffer_json_utf8(void *data, uint32_t codepoint) {
         return -1;
     }
 
-    unsigned char buffer[4] = {'\\', 0};
-    size_t bytes = 2;
+    char buffer[7] = {'\\', 0};
+    int bytes = 2;
     switch(codepoint) {
         case '"':
             buffer[1] = '"';
@@ -181,13 +182,21 @@ passgen_generate_write_buffer_json_utf8(void *data, uint32_t codepoint) {
             buffer[1] = 't';
             break;
         default:
-            bytes = passgen_utf8_encode_codepoint(
-                (uint8_t *) &buffer[0],
-                codepoint);
+            if(codepoint < 0x20) {
+                bytes = snprintf(
+                    &buffer[0],
+                    sizeof(buffer),
+                    "\\u%04x",
+                    (unsigned int) codepoint);
+            } else {
+                bytes = passgen_utf8_encode_codepoint(
+                    (uint8_t *) &buffer[0],
+                    codepoint);
+            }
     }
 
     // check that no error happened.
-    if(!bytes) {
+    if(bytes < 0) {
         return -1;
     }
 
-- 
2.43.0


From bebe29af7d663464c6ea9d96fa56bfe8c7d15bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:10 +0000
Subject: [PATCH 26/46] fix: random: refuse chacha20 keys which are too long

A key of more than 32 bytes in the description overflowed the stack.
---
 src/random/random.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/random/random.c b/src/random/random.c
index 035bbb8..4f8f8a9 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -111,6 +111,9 @@ passgen_random_open_parse(passgen_random *random, const char *desc) {
             key_end = key_ptr + strlen(key_ptr);
         }
         char key[32] = {0};
+        if((size_t) (key_end - key_ptr) > sizeof(key)) {
+            return NULL;
+        }
         memcpy(key, key_ptr, key_end - key_ptr);
 
         char iv[] = "passgen";
-- 
2.43.0


From ac865b5775f86666464867249c4929159b54b891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:15 +0000
Subject: [PATCH 27/46] fix: random: accept chacha20-argon2 fields of any
 length

A master passphrase, domain or token of more than 128 bytes in the description
overflowed the stack.
---
 src/random/random.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/random/random.c b/src/random/random.c
index 4f8f8a9..ae8d880 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -131,9 +131,14 @@ passgen_random_open_parse(passgen_random *random, const char *desc) {
 
     // use chacha20 with raw key and IV
     if(_strprefix("chacha20-argon2:", desc)) {
-        char master_pass[128] = {0};
-        char domain[128] = {0};
-        char token[128] = {0};
+        // none of the fields can be longer than the description
+        size_t field_size = strlen(desc) + 1;
+        char *master_pass = calloc(3, field_size);
+        if(!master_pass) {
+            return NULL;
+        }
+        char *domain = master_pass + field_size;
+        char *token = domain + field_size;
 
         const char *start = &desc[16];
         const char *end = &desc[16];
@@ -153,7 +158,10 @@ passgen_random_open_parse(passgen_random *random, const char *desc) {
         PARSE_STRING(domain)
         PARSE_STRING(token)
 
-        return passgen_random_chacha20_argon2_open(random, master_pass, domain, token, NULL);
+        random = passgen_random_chacha20_argon2_open(random, master_pass, domain, token, NULL);
+        passgen_wipe(master_pass, 3 * field_size);
+        free(master_pass);
+        return random;
     }
 #endif
 
-- 
2.43.0


From c478e287493a16698267eca9a66a5d6359d38e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:22 +0000
Subject: [PATCH 28/46] fix: random: refuse malformed xorshift seeds and accept
 all others

Trailing garbage was ignored, and every seed above the largest signed 64-bit
integer was clamped to the same value.
---
 src/random/random.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/random/random.c b/src/random/random.c
index ae8d880..694340d 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -2,6 +2,7 @@
 #include "passgen/assert.h"
 #include "passgen/config.h"
 #include "passgen/util/endian.h"
+#include <errno.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -89,8 +90,10 @@ passgen_random_open_parse(passgen_random *random, const char *desc) {
             return NULL;
         }
 
-        uint64_t seed = atoll(seed_str);
-        if(seed == 0) {
+        char *seed_end;
+        errno = 0;
+        uint64_t seed = strtoull(seed_str, &seed_end, 10);
+        if(seed == 0 || errno != 0 || *seed_end != 0) {
             return NULL;
         }
 
-- 
2.43.0


From 34e7a0b99c64628c14d9d80cf3df87bdb0ef5848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:48 +0000
Subject: [PATCH 29/46] fix: random: wipe the state of the xorshift source when
 closing it

---
 src/random/xorshift.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/random/xorshift.c b/src/random/xorshift.c
index 5e501f9..5c8980f 100644
--- a/src/random/xorshift.c
+++ b/src/random/xorshift.c
@@ -1,3 +1,4 @@
+#include "passgen/config.h"
 #include "passgen/random.h"
 #include "passgen/util/endian.h"
 #include <stdlib.h>
@@ -34,7 +35,9 @@ passgen_random_xorshift_read(void *context, void *dest, size_t size) {
 }
 
 static void passgen_random_xorshift_close(void *context) {
-    free(context);
+    uint64_t *state = context;
+    PASSGEN_CLEAR(state);
+    free(state);
 }
 
 passgen_random *
-- 
2.43.0


From c3bb83e2d20514d500f8cc05bc26664169972b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:55 +0000
Subject: [PATCH 30/46] fix: random: do not leave unread randomness in the
 buffer of a file

The buffer stdio allocates for the file holds data which was never consumed,
and was released without being wiped.
---
 src/random/system.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/random/system.c b/src/random/system.c
index e58c038..b3432c5 100644
--- a/src/random/system.c
+++ b/src/random/system.c
@@ -72,6 +72,10 @@ passgen_random_path_open(passgen_random *random, const char *path) {
         return NULL;
     }
 
+    // read exactly what is asked for. otherwise unread random data would stay
+    // in memory when the buffer of the file is freed.
+    setvbuf(device, NULL, _IONBF, 0);
+
     if(!random) {
         random = malloc(sizeof(passgen_random));
         if(!random) return NULL;
-- 
2.43.0


From d1a2471a4b0a041db90687765896be272e8482fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:23 +0000
Subject: [PATCH 31/46] fix: parser: report malformed escapes when parsing
 codepoints

passgen_parser_unicode() ignored errors of the tokenizer and escapes which are
not finished, and accepted such patterns.
---
 src/parser/parser.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 6a265d6..c6f8c4f 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -614,6 +614,11 @@ int passgen_parser_unicode(
     for(size_t pos = 0; pos < length; pos++) {
         ret = passgen_token_parse(&token_parser, &token, 1, data[pos]);
 
+        // make sure parsing the token was successful
+        if(ret < 0) {
+            return ret;
+        }
+
         if(ret == PASSGEN_TOKEN_INIT) {
             ret = passgen_parse_token(parser, &token);
 
@@ -623,5 +628,10 @@ int passgen_parser_unicode(
         }
     }
 
+    // make sure we aren't still parsing tokens
+    if(token_parser.state != PASSGEN_TOKEN_INIT) {
+        return -1;
+    }
+
     return 0;
 }
-- 
2.43.0


From 42c19376108e7fad14c28ea2e7946121108088b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:09 +0000
Subject: [PATCH 32/46] fix: limit how deep a pattern can be nested

Freeing a pattern with some ten thousand nested groups exhausted the stack.
---
 src/passgen.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/passgen.c b/src/passgen.c
index ae667ae..d65f042 100644
--- a/src/passgen.c
+++ b/src/passgen.c
@@ -7,6 +7,10 @@
 #include <passgen/passgen.h>
 #include <string.h>
 
+// limit of how deep patterns can be nested. patterns are generated from and
+// freed recursively, without a limit this could exhaust the stack.
+#define PASSGEN_PARSE_LIMIT 4096
+
 int passgen_parse(
     passgen_pattern *output,
     passgen_error *error,
@@ -15,6 +19,7 @@ int passgen_parse(
     passgen_token_parser token_parser = {0};
     passgen_token token = {0};
     passgen_parser_init(&parser, output);
+    parser.limit = PASSGEN_PARSE_LIMIT;
 
     const uint8_t *pattern_raw = (const uint8_t *) string;
     size_t pattern_len = 256;
-- 
2.43.0


From 402d3911164279a3cdaf913aeee9de46252ce976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:32 +0000
Subject: [PATCH 33/46] fix: cli: read configuration files of any size

Only the first 10240 bytes were read, and for a file of that size or more a
zero byte was written behind the buffer.
---
 src/cli/passgen.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 37d643b..e587bdc 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -521,10 +521,27 @@ void passgen_cli_opts_free(passgen_cli_opts *opts) {
 }
 
 int passgen_cli_opts_config_load(passgen_cli_opts *opts, FILE *file) {
-    // TODO: use something like passgen_buffer to do this
-    char *config = malloc(10240);
-    size_t read = fread(config, 1, 10240, file);
-    config[read] = 0;
+    // read in entire file, leaving space for the zero termination
+    size_t capacity = 10240;
+    size_t size = 0;
+    size_t read;
+    char *config = malloc(capacity);
+    if(!config) {
+        return passgen_cli_bail(PASSGEN_ERROR_ALLOC, NULL);
+    }
+    while((read = fread(&config[size], 1, capacity - size - 1, file))) {
+        size += read;
+        if(size + 1 == capacity) {
+            capacity *= 2;
+            char *grown = realloc(config, capacity);
+            if(!grown) {
+                free(config);
+                return passgen_cli_bail(PASSGEN_ERROR_ALLOC, NULL);
+            }
+            config = grown;
+        }
+    }
+    config[size] = 0;
     int ret = passgen_cli_opts_config_parse(opts, config);
     free(config);
     return ret;
-- 
2.43.0


From abe057f2f13d8dd7b33fca5dd93716fcaf255e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:38 +0000
Subject: [PATCH 34/46] fix: cli: do not overflow the path of the configuration
 file

It was written to a buffer of 256 bytes, whatever the length of HOME or
XDG_CONFIG_PATH.
---
 src/cli/passgen.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index e587bdc..cca02e7 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -611,19 +611,30 @@ int passgen_cli_opts_config_system(passgen_cli_opts *opts) {
 }
 
 int passgen_cli_opts_config_user(passgen_cli_opts *opts) {
-    char config_path[256];
+    char *config_path;
     const char *xdg_config_path = getenv("XDG_CONFIG_PATH");
     if(xdg_config_path) {
-        sprintf(config_path, "%s/passgen.conf", xdg_config_path);
+        size_t size = strlen(xdg_config_path) + sizeof("/passgen.conf");
+        config_path = malloc(size);
+        if(!config_path) {
+            return passgen_cli_bail(PASSGEN_ERROR_ALLOC, NULL);
+        }
+        snprintf(config_path, size, "%s/passgen.conf", xdg_config_path);
     } else {
         const char *home = getenv("HOME");
         if(!home) {
             fprintf(stderr, "warning: cannot locate home directory\n");
             return 0;
         }
-        sprintf(config_path, "%s/.config/passgen.conf", home);
+        size_t size = strlen(home) + sizeof("/.config/passgen.conf");
+        config_path = malloc(size);
+        if(!config_path) {
+            return passgen_cli_bail(PASSGEN_ERROR_ALLOC, NULL);
+        }
+        snprintf(config_path, size, "%s/.config/passgen.conf", home);
     }
     FILE *file = fopen(config_path, "r");
+    free(config_path);
     if(file) {
         int ret = passgen_cli_opts_config_load(opts, file);
         fclose(file);
-- 
2.43.0


From 1bd790e603c8ae1e1fb5eaf514bf1365d8e11e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:45 +0000
Subject: [PATCH 35/46] fix: cli: exit with the documented status for an
 invalid randomness source

---
 src/cli/passgen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index cca02e7..9bdb720 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -41,7 +41,7 @@ int passgen_cli_opts_random(passgen_cli_opts *opts, const char *random) {
         printf(
             "\033[1;31merror\033[0m: invalid randomness source '%s'\n",
             random);
-        return 1;
+        return PASSGEN_ERROR_RANDOM_ALLOC;
     }
 
     return 0;
-- 
2.43.0


From 19319a88e58a0d1f2e0674273f5e10f84b2b5586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:51 +0000
Subject: [PATCH 36/46] fix: cli: parse configuration files line by line

Keywords were looked for at every position, also inside of other lines, the
parser ran beyond the end of a file without a final newline, the documented
form with name and value separated by a space was not understood, and an
invalid randomness source was replaced by the system one.
---
 src/cli/passgen.c | 81 ++++++++++++++++++++++++-----------------------
 1 file changed, 41 insertions(+), 40 deletions(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 9bdb720..d227c45 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -27,7 +27,6 @@
 #include "passgen/wordlist.h"
 
 #define UNUSED(x)              (void) x
-#define strprefix(prefix, str) memcmp(prefix, str, strlen(prefix))
 
 int passgen_cli_opts_random(passgen_cli_opts *opts, const char *random) {
     if(opts->env.random) {
@@ -547,47 +546,49 @@ int passgen_cli_opts_config_load(passgen_cli_opts *opts, FILE *file) {
     return ret;
 }
 
+// If the line starts with this keyword, returns what follows it.
+static char *config_keyword(char *line, const char *keyword) {
+    size_t len = strlen(keyword);
+    if(0 != strncmp(line, keyword, len)) {
+        return NULL;
+    }
+    if(line[len] != ' ' && line[len] != '\t') {
+        return NULL;
+    }
+    return &line[len + strspn(&line[len], " \t")];
+}
+
+// Name and value can be separated by a colon or by whitespace. Make it a colon,
+// as on the command line.
+static char *config_name_value(char *arg) {
+    size_t len = strcspn(arg, ": \t");
+    if(arg[len] && arg[len] != ':') {
+        char *value = &arg[len + strspn(&arg[len], " \t")];
+        arg[len] = ':';
+        memmove(&arg[len + 1], value, strlen(value) + 1);
+    }
+    return arg;
+}
+
 int passgen_cli_opts_config_parse(passgen_cli_opts *opts, char *data) {
-    // TODO: this code is a mess.
-    for(size_t pos = 0; data[pos]; pos++) {
-        if(data[pos] == '#') {
-            // skip this line, it's a comment
-            while(data[pos] && data[pos] != '\n') pos++;
-            continue;
-        }
-        if(data[pos] == '\n') {
-            // skip this newline
-            continue;
-        }
-        if(0 == strprefix("random", &data[pos])) {
-            pos += 6;
-            while(data[pos] && (data[pos] == ' ' || data[pos] == '\t')) pos++;
-            size_t length = 0;
-            while(data[pos + length] && data[pos + length] != '\n') length++;
-            data[pos + length] = 0;
-            passgen_cli_opts_random(opts, &data[pos]);
-            pos += length;
-            continue;
+    while(*data) {
+        // split off the first line
+        char *line = data;
+        data += strcspn(data, "\n");
+        if(*data) {
+            *data = 0;
+            data++;
         }
-        if(0 == strprefix("wordlist", &data[pos])) {
-            pos += 8;
-            while(data[pos] && (data[pos] == ' ' || data[pos] == '\t')) pos++;
-            size_t length = 0;
-            while(data[pos + length] && data[pos + length] != '\n') length++;
-            data[pos + length] = 0;
-            passgen_cli_opts_wordlist(opts, &data[pos]);
-            pos += length;
-            continue;
-        }
-        if(0 == strprefix("preset", &data[pos])) {
-            pos += 6;
-            while(data[pos] && (data[pos] == ' ' || data[pos] == '\t')) pos++;
-            size_t length = 0;
-            while(data[pos + length] && data[pos + length] != '\n') length++;
-            data[pos + length] = 0;
-            passgen_cli_opts_preset(opts, &data[pos]);
-            pos += length;
-            continue;
+
+        // comments and lines which are not known are skipped
+        line += strspn(line, " \t");
+        char *arg;
+        if((arg = config_keyword(line, "random"))) {
+            try(passgen_cli_opts_random(opts, arg));
+        } else if((arg = config_keyword(line, "wordlist"))) {
+            passgen_cli_opts_wordlist(opts, config_name_value(arg));
+        } else if((arg = config_keyword(line, "preset"))) {
+            try(passgen_cli_opts_preset(opts, config_name_value(arg)));
         }
     }
     return 0;
-- 
2.43.0


From cc129943078ffaf51bff37b26b69be8ba0d51f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:58 +0000
Subject: [PATCH 37/46] fix: cli: refuse markov chain lengths above 255

The length is stored in eight bits, so larger ones were silently reduced, or
failed an assertion for multiples of 256.
---
 src/cli/passgen.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index d227c45..9055704 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -4,6 +4,7 @@
 #include <getopt.h>
 #include <math.h>
 #include <stdbool.h>
+#include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -340,7 +341,7 @@ int passgen_cli_opts_parse(passgen_cli_opts *opts, int argc, char *argv[]) {
                 break;
             case 'M':
                 opt = atoi(optarg);
-                if(opt < 1) {
+                if(opt < 1 || opt > UINT8_MAX) {
                     return passgen_cli_bail(
                         PASSGEN_ERROR_ILLEGAL_MARKOV_LENGTH,
                         &opt);
-- 
2.43.0


From 386e79e3fb5295c333bb2aa7e7c72af7c8dbee20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:57 +0000
Subject: [PATCH 38/46] fix: cli: print outputs in full or fail

When generating failed, for example for a wordlist that is not loaded, an empty
output was printed and the exit status was zero. The same happened to outputs
of more than 256 bytes, and outputs ended at the first NUL character.
---
 man/passgen.1.in  |   2 +
 src/cli/passgen.c | 106 ++++++++++++++++++++++++++++++++--------------
 src/cli/passgen.h |   1 +
 3 files changed, 78 insertions(+), 31 deletions(-)

diff --git a/man/passgen.1.in b/man/passgen.1.in
index cfa48e2..310d8a1 100644
--- a/man/passgen.1.in
+++ b/man/passgen.1.in
@@ -251,6 +251,8 @@ Unrecognized argument flag. Make sure that you are not using an incorrect flag.
 Preset not found. Make sure that the preset you have specified exists. When it doubt, use the
 .Fl -list
 command to see the full list of all presets that the tool knows about.
+.It Ar 9
+Generating from the pattern failed. Make sure that all of the wordlists the pattern uses have been loaded and are not empty.
 .El
 .Sh SEE ALSO
 .Xr apg 1 ,
diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 9055704..b29de0a 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -61,16 +61,51 @@ int passgen_cli_run(passgen_cli_opts opts) {
     return ret;
 }
 
+// Codepoints of a generated sequence.
+typedef struct {
+    uint32_t *codepoints;
+    size_t len;
+    size_t capacity;
+} passgen_cli_output;
+
+static int passgen_cli_output_push(void *data, uint32_t codepoint) {
+    passgen_cli_output *output = data;
+    if(output->len == output->capacity) {
+        size_t capacity = output->capacity ? 2 * output->capacity : 256;
+        uint32_t *codepoints =
+            realloc(output->codepoints, capacity * sizeof(uint32_t));
+        if(!codepoints) {
+            return -1;
+        }
+        output->codepoints = codepoints;
+        output->capacity = capacity;
+    }
+    output->codepoints[output->len] = codepoint;
+    output->len += 1;
+    return 0;
+}
+
+static void passgen_cli_output_print(passgen_cli_output *output, bool json) {
+    for(size_t i = 0; i < output->len; i++) {
+        uint32_t codepoint = output->codepoints[i];
+        if(json && (codepoint == '"' || codepoint == '\\')) {
+            printf("\\%c", (char) codepoint);
+        } else if(json && codepoint < 0x20) {
+            printf("\\u%04x", (unsigned int) codepoint);
+        } else {
+            uint8_t encoded[4];
+            int bytes = passgen_utf8_encode_codepoint(&encoded[0], codepoint);
+            if(bytes > 0) {
+                fwrite(&encoded[0], 1, bytes, stdout);
+            }
+        }
+    }
+}
+
 int passgen_cli_generate_normal(
     passgen_cli_opts opts,
     passgen_pattern *pattern) {
-    // allocate some space for pass.
-    // size_t pass_len = pattern_maxlen(pattern);
-    size_t pass_len = 256;
-    uint8_t *pass = malloc(pass_len + 1);
-    if(!pass) {
-        return passgen_cli_bail(PASSGEN_ERROR_ALLOC, NULL);
-    }
+    passgen_cli_output output = {0};
 
     char sep = '\n';
     if(opts.null) {
@@ -78,54 +113,58 @@ int passgen_cli_generate_normal(
     }
 
     for(size_t i = 0; i < opts.amount; ++i) {
-        // get a NULL-terminated, random pass.
+        // get a random pass.
         double entropy;
-        size_t written = passgen_generate_fill_utf8(
+        output.len = 0;
+        int ret = passgen_generate(
             pattern,
             &opts.env,
             opts.entropy ? &entropy : NULL,
-            pass,
-            pass_len);
-        pass[written] = '\0';
+            &output,
+            passgen_cli_output_push);
+        if(ret != 0) {
+            free(output.codepoints);
+            return passgen_cli_bail(PASSGEN_ERROR_GENERATE, NULL);
+        }
 
         if(opts.entropy) {
             fprintf(stderr, "entropy: %.2lf bits\n", log(entropy) / log(2));
         }
 
-        if(i == 0) {
-            printf("%s", pass);
-        } else {
-            printf("%c%s", sep, pass);
+        if(i != 0) {
+            printf("%c", sep);
         }
+        passgen_cli_output_print(&output, false);
     }
 
     printf("\n");
-    free(pass);
+    free(output.codepoints);
 
     return 0;
 }
 
 int passgen_cli_generate_json(passgen_cli_opts opts, passgen_pattern *pattern) {
-    // allocate some space for pass.
-    // size_t pass_len = pattern_maxlen(pattern);
-    size_t pass_len = 256;
-    uint8_t *pass = malloc(pass_len + 1);
-    if(!pass) {
-        return passgen_cli_bail(PASSGEN_ERROR_ALLOC, NULL);
-    }
+    passgen_cli_output output = {0};
 
     printf("[");
     for(size_t i = 0; i < opts.amount; ++i) {
         double entropy;
-        // get a NULL-terminated, random pass.
-        size_t written = passgen_generate_fill_json_utf8(
+        output.len = 0;
+        // get a random pass.
+        int ret = passgen_generate(
             pattern,
             &opts.env,
             opts.entropy ? &entropy : NULL,
-            pass,
-            pass_len);
-        pass[written] = '\0';
-        printf("%s{\"output\":\"%s\"", (i == 0) ? "" : ",", pass);
+            &output,
+            passgen_cli_output_push);
+        if(ret != 0) {
+            free(output.codepoints);
+            return passgen_cli_bail(PASSGEN_ERROR_GENERATE, NULL);
+        }
+
+        printf("%s{\"output\":\"", (i == 0) ? "" : ",");
+        passgen_cli_output_print(&output, true);
+        printf("\"");
 
         if(opts.entropy) {
             printf(",\"entropy\":%lf", log(entropy) / log(2));
@@ -135,7 +174,7 @@ int passgen_cli_generate_json(passgen_cli_opts opts, passgen_pattern *pattern) {
     }
     printf("]\n");
 
-    free(pass);
+    free(output.codepoints);
     return 0;
 }
 
@@ -507,6 +546,11 @@ int passgen_cli_bail(passgen_cli_error error, const void *data) {
                 "\033[1;31merror\033[0m: preset `%s` not found\n",
                 (const char *) data);
             break;
+        case PASSGEN_ERROR_GENERATE:
+            fprintf(
+                stderr,
+                "\033[1;31merror\033[0m: cannot generate from this pattern\n");
+            break;
         default:
             printf("error: unknown error.\n");
             break;
diff --git a/src/cli/passgen.h b/src/cli/passgen.h
index b3c1bad..be0e67a 100644
--- a/src/cli/passgen.h
+++ b/src/cli/passgen.h
@@ -26,6 +26,7 @@ typedef enum {
     PASSGEN_ERROR_ILLEGAL_MARKOV_LENGTH,
     PASSGEN_ERROR_UNRECOGNIZED,
     PASSGEN_ERROR_PRESET_NOT_FOUND,
+    PASSGEN_ERROR_GENERATE,
 
     PASSGEN_SHOW_HELP,
     PASSGEN_SHOW_VERSION,
-- 
2.43.0


From abe79ad2daf95f2f67130db7336007077f0d4c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:14 +0000
Subject: [PATCH 39/46] fix: cli: fail if the outputs cannot be written

---
 src/cli/passgen.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index b29de0a..1082bc6 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -58,6 +58,12 @@ int passgen_cli_run(passgen_cli_opts opts) {
 
     ret = passgen_cli_generate(opts, &pattern);
     passgen_pattern_free(&pattern);
+
+    // make sure that everything was written
+    if(ret == 0 && (fflush(stdout) != 0 || ferror(stdout))) {
+        return passgen_cli_bail(PASSGEN_ERROR_GENERATE, NULL);
+    }
+
     return ret;
 }
 
-- 
2.43.0


From e359901c93fa4558f0a385633260b55f2582a13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:46 +0000
Subject: [PATCH 40/46] fix: cli: let the sandboxed tool write to and read from
 devices

glibc issues a TCGETS ioctl before it first writes to (or reads from) a
character device which is not a terminal, such as /dev/null, for which the
sandbox killed the tool.
---
 src/cli/passgen.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 1082bc6..abc1f2b 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -808,6 +808,15 @@ void passgen_cli_seccomp_init() {
         SCMP_CMP(0, SCMP_CMP_EQ, 1),
         SCMP_CMP(1, SCMP_CMP_EQ, TIOCGWINSZ));
 
+    // allow checking if a file is a terminal, glibc does this to decide how to
+    // buffer a character device
+    seccomp_rule_add(
+        ctx,
+        SCMP_ACT_ALLOW,
+        SCMP_SYS(ioctl),
+        1,
+        SCMP_CMP(1, SCMP_CMP_EQ, TCGETS));
+
     // apply rules
     seccomp_load(ctx);
     seccomp_release(ctx);
-- 
2.43.0


From 326b021191473a28e7f59a10223d537da1b295c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:17 +0000
Subject: [PATCH 41/46] fix: random: do not leave unread randomness in the
 buffer of a file that is passed in

---
 src/random/system.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/random/system.c b/src/random/system.c
index b3432c5..1f4f0b8 100644
--- a/src/random/system.c
+++ b/src/random/system.c
@@ -72,10 +72,6 @@ passgen_random_path_open(passgen_random *random, const char *path) {
         return NULL;
     }
 
-    // read exactly what is asked for. otherwise unread random data would stay
-    // in memory when the buffer of the file is freed.
-    setvbuf(device, NULL, _IONBF, 0);
-
     if(!random) {
         random = malloc(sizeof(passgen_random));
         if(!random) return NULL;
@@ -94,6 +90,10 @@ passgen_random *passgen_random_file_open(passgen_random *random, FILE *file) {
         if(!random) return NULL;
     }
 
+    // read exactly what is asked for. otherwise unread random data would stay
+    // in memory when the buffer of the file is freed.
+    setvbuf(file, NULL, _IONBF, 0);
+
     random->context = file;
     random->read = passgen_random_read_file;
     random->close = passgen_random_close_file;
-- 
2.43.0


From 1d577c63993563cb750ad4bed81563dcf82835ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:28 +0000
Subject: [PATCH 42/46] fix: error: mark the place of the error, not the one
 before it

---
 src/error.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.c b/src/error.c
index d48c6f2..ffccd13 100644
--- a/src/error.c
+++ b/src/error.c
@@ -30,7 +30,7 @@ void passgen_error_print(passgen_error *error, const char *pattern) {
     }
     fprintf(stderr, "\033[1;33mpattern\033[0m: %s\n", pattern);
     fprintf(stderr, "         ");
-    for(size_t i = 1; i < error->offset.byte; i++) {
+    for(size_t i = 0; i < error->offset.codepoint; i++) {
         fprintf(stderr, " ");
     }
     fprintf(stderr, "\033[1;31m^\033[0m\n");
-- 
2.43.0


From 914eb7544c67558a9dcdc1b9bf80515c93cbbd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:02 +0000
Subject: [PATCH 43/46] fix: cli: stop when the source of a master passphrase
 cannot be opened

When it could not be opened for lack of memory, system randomness was used
instead and the tool ended with success.
---
 src/cli/passgen.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index abc1f2b..85ad50d 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -445,6 +445,9 @@ int passgen_cli_opts_parse(passgen_cli_opts *opts, int argc, char *argv[]) {
 #ifdef PASSGEN_MONOCYPHER
     if(!opts->env.random && opts->master_passphrase) {
         opts->env.random = passgen_random_chacha20_argon2_open(NULL, opts->master_passphrase, opts->master_domain, opts->master_token, NULL);
+        if(!opts->env.random) {
+            return PASSGEN_ERROR_RANDOM_ALLOC;
+        }
     }
 #endif
 
-- 
2.43.0


From 7c3d347e6a6690cdcc08b326baeec53012f13f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 44/46] fix: stack: keep the elements when a stack cannot be
 shrunk

---
 src/container/stack.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/container/stack.c b/src/container/stack.c
index ec04bb2..ef8533c 100644
--- a/src/container/stack.c
+++ b/src/container/stack.c
@@ -141,8 +141,12 @@ void *passgen_stack_pop(passgen_stack *stack, void *element) {
         size_t entry_size = passgen_stack_bin_count(stack, stack->len);
         size_t new_size = passgen_stack_bin_count(stack, stack->len - 1);
         if(entry_size != new_size) {
-            stack->data[0] =
+            // if it cannot be shrunk, it stays as large as it is
+            void *shrunk =
                 realloc(stack->data[0], new_size * stack->element_size);
+            if(shrunk) {
+                stack->data[0] = shrunk;
+            }
         }
     } else {
         size_t max_bin = passgen_stack_bin(stack, stack->len - 1);
-- 
2.43.0


From 244bb41fba9fb0ad5a4b79c2544baba42f5dd1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:31 +0000
Subject: [PATCH 45/46] fix: cli: amounts and Markov lengths that do not fit an
 int were taken for others

---
 src/cli/passgen.c | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 85ad50d..a5fbdc1 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -2,6 +2,7 @@
 
 #include <assert.h>
 #include <getopt.h>
+#include <limits.h>
 #include <math.h>
 #include <stdbool.h>
 #include <stdint.h>
@@ -317,6 +318,7 @@ void passgen_cli_presets_list(const passgen_cli_opts *opts) {
 int passgen_cli_opts_parse(passgen_cli_opts *opts, int argc, char *argv[]) {
     const char *short_opts = "a:p:P:d:w:r:m:D:M:t:ezhvjl";
     const char *preset = NULL;
+    long long number;
 
     static struct option long_opts[] = {
         {"amount", required_argument, NULL, 'a'},
@@ -348,11 +350,13 @@ int passgen_cli_opts_parse(passgen_cli_opts *opts, int argc, char *argv[]) {
             case 'h':
                 return PASSGEN_SHOW_HELP;
             case 'a':
-                opt = atoi(optarg);
-                if(opt < 1) {
-                    return passgen_cli_bail(PASSGEN_ERROR_ILLEGAL_AMOUNT, &opt);
+                number = strtoll(optarg, NULL, 10);
+                if(number < 1 || number > INT_MAX) {
+                    return passgen_cli_bail(
+                        PASSGEN_ERROR_ILLEGAL_AMOUNT,
+                        optarg);
                 }
-                opts->amount = opt;
+                opts->amount = number;
                 break;
             case 'm':
                 opts->master_passphrase = optarg;
@@ -385,13 +389,13 @@ int passgen_cli_opts_parse(passgen_cli_opts *opts, int argc, char *argv[]) {
                 try(passgen_cli_opts_wordlist(opts, optarg));
                 break;
             case 'M':
-                opt = atoi(optarg);
-                if(opt < 1 || opt > UINT8_MAX) {
+                number = strtoll(optarg, NULL, 10);
+                if(number < 1 || number > UINT8_MAX) {
                     return passgen_cli_bail(
                         PASSGEN_ERROR_ILLEGAL_MARKOV_LENGTH,
-                        &opt);
+                        optarg);
                 }
-                opts->markov_length = opt;
+                opts->markov_length = number;
                 break;
             case 'r':
                 try(passgen_cli_opts_random(opts, optarg));
@@ -539,14 +543,14 @@ int passgen_cli_bail(passgen_cli_error error, const void *data) {
             break;
         case PASSGEN_ERROR_ILLEGAL_AMOUNT:
             printf(
-                "\033[1;31merror\033[0m: illegal amount entered (%i)\n",
-                *((const int *) data));
+                "\033[1;31merror\033[0m: illegal amount entered (%s)\n",
+                (const char *) data);
             break;
         case PASSGEN_ERROR_ILLEGAL_MARKOV_LENGTH:
             printf(
                 "\033[1;31merror\033[0m: illegal markov chain length entered "
-                "(%i)\n",
-                *((const int *) data));
+                "(%s)\n",
+                (const char *) data);
             break;
         case PASSGEN_ERROR_UNRECOGNIZED:
             break;
-- 
2.43.0


From a2c56860893dfcf092395e1bbe7c4a5da6a44787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:44 +0000
Subject: [PATCH 46/46] fix: token: the mask for codepoints was a single bit, 1
 << 20

---
 include/passgen/parser/token.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/passgen/parser/token.h b/include/passgen/parser/token.h
index 25b1d5c..5408d03 100644
--- a/include/passgen/parser/token.h
+++ b/include/passgen/parser/token.h
@@ -21,7 +21,7 @@
 
 /// Bitmask for extracting only the Unicode codepoint from the parsed @ref
 /// passgen_token.
-#define PASSGEN_TOKEN_UNICODE_MASK (1 << 21 - 1)
+#define PASSGEN_TOKEN_UNICODE_MASK ((1 << 21) - 1)
 
 /// State of the @ref passgen_token_parser.
 ///
-- 
2.43.0

