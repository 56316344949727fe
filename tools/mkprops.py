#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


G = "src/generate.c"
PA = "src/parser/parser.c"

prop("C01", "Generated output always belongs to the language of the pattern",
     "For every accepted pattern and every randomness stream, each generated sequence is one the documented pattern syntax denotes: literals verbatim and in order, exactly one alternative of every group (never one weighted zero), one member of every set, every item repeated between its minimum and maximum number of times, and an optional item either wholly present or wholly absent. Nothing is added, dropped, truncated or reordered, and generation succeeds for every such pattern within the nesting limit.",
     ["inputs", "programs"],
     "All well-formed patterns (arbitrarily composed literals, escapes, sets, groups, multipliers, repetitions, optionals, words) times all randomness streams.",
     "The unit tests generate from a few dozen fixed patterns with one stream each; composition of constructs (repeat of a group with weighted alternatives containing sets, literal runs longer than a storage chunk, modifier after an escape...) is unbounded.",
     [PA, G, "src/pattern/segment.c", "src/pattern/group.c", "src/pattern/literal.c", "src/pattern/set.c"],
     [("recursive descent over the parsed pattern", G), ("last item split for modifiers", PA + ":last_single_item_taint")],
     ["passgen_generate", "passgen_generate_fill_unicode", "CLI stdout"])

prop("C02", "Random choices are fair: weighted, uniform, independent",
     "Every alternative of a group is chosen with probability proportional to its multiplier (one by default), every listed member of a set, every repetition count of an inclusive range and every word of a wordlist with equal probability, and an optional item with probability one half. Successive choices, including those of repeated items and of successive outputs, are independent of each other, and every sequence of the pattern's language can be produced.",
     ["inputs", "programs"],
     "All patterns, every choice point inside them and every pair of choices, over uniformly distributed randomness.",
     "A test can only look at a handful of outputs; bias, unreachable members and correlated draws are statements about the whole distribution.",
     [G, "src/random/random.c", PA, "src/wordlist.c"],
     [("bounded draw with rejection", "src/random/random.c"), ("cumulative choice list", PA + ":passgen_parse_set"), ("multiplier sum", PA)],
     ["passgen_generate", "passgen_wordlist_random"])

prop("C03", "A fixed randomness stream always reproduces the same outputs",
     "The sequence of outputs is a pure function of the pattern, the wordlists and the randomness stream, and this function is stable: a choice among n options reads little-endian 64-bit values, keeps just the low bits needed to represent n and takes the first value below n as the index of the option in written order, and an optional item is present when the next single byte is below 128. Choices are made in pattern order (group alternative, then for each item presence, repetition count, and content per repetition), so a passphrase derived once from a master passphrase can be derived again by any later build or configuration.",
     ["inputs", "programs", "configurations"],
     "All patterns and wordlists, all streams, all output forms (codepoints, UTF-8, JSON, CLI), debug and release builds.",
     "The CLI tests pin some two dozen pattern/seed pairs; a change that keeps those and shifts the stream for another construct silently locks users out of derived passphrases.",
     [G, "src/random/random.c", "src/markov.c", "src/wordlist.c", "src/cli/passgen.c"],
     [("order of draws", G), ("bounded draw", "src/random/random.c:passgen_random_u64_max")],
     ["passgen_generate*", "CLI stdout with -r/-m"])

prop("C04", "Reported entropy equals the information actually chosen",
     "The entropy reported for an output is the negative base-two logarithm of the probability of the choices that produced it: it counts every group alternative by weight, every set member, repetition count, optional item, word and Markov transition, each repetition separately, and nothing else. It does not depend on the output format, requesting it never changes the output, and it starts afresh for every output.",
     ["inputs", "programs"],
     "All patterns whose choices stay below 2^1000, all wordlists and Markov orders, all streams; library value, CLI text and CLI JSON.",
     "The unit tests compare the number for about ten fixed patterns; the property must hold for every composition of constructs, in particular where branches with different costs are taken.",
     [G, "src/markov.c", "src/cli/passgen.c"],
     [("running product of choices", G), ("leaf counts", "src/markov.c:passgen_markov_generate")],
     ["entropy argument of passgen_generate*", "CLI -e"])

prop("C05", "Well-formed patterns are accepted, malformed ones rejected",
     "A pattern is accepted if and only if it is well-formed: brackets and braces balance, modifiers follow an item (a leading brace count being a segment weight), counts are decimal numbers that fit and do not decrease, set ranges ascend and are complete, only known escapes occur, and the text is valid UTF-8. Acceptance does not depend on the length of the pattern or on where in it a construct stands, and whether a pattern is fed whole or codepoint by codepoint.",
     ["inputs", "programs"],
     "All strings: generated well-formed patterns of any size, and single- and multi-point mutations of them at every position.",
     "The tests hold a fixed list of good and bad patterns, all shorter than one decoding chunk.",
     [PA, "src/parser/token.c", "src/passgen.c", "src/util/utf8.c"],
     [("state stack", PA), ("end-of-input check", PA + ":passgen_parse_finish")],
     ["passgen_parse", "passgen_parser_unicode", "CLI exit status 3"])

prop("C06", "A rejected pattern is reported at the position of the offence",
     "When a pattern is rejected, the error carries a message and the codepoint and byte offset at which the first token that cannot continue any well-formed pattern begins; for input that merely ends too early both offsets are the end of the pattern. The two offsets always denote the same place, also after multi-byte characters and escapes, and lie within the pattern. The tool shows the message and the pattern and marks that place below it, one column per codepoint. An error object keeps the source, offsets and every cause it is given, and only those.",
     ["inputs"],
     "All malformed patterns: every kind of error at every position, after any prefix of ASCII and non-ASCII text and escapes, short or longer than a decoding chunk.",
     "A few tests look at the offset of one error each, in short ASCII patterns.",
     ["src/passgen.c", "src/parser/token.c", PA, "src/error.c"],
     [("token offsets", "src/parser/token.c:passgen_token_parse"), ("running totals", "src/passgen.c:passgen_parse")],
     ["passgen_error.offset", "CLI stderr"])

prop("C07", "Escapes denote exactly the character they spell",
     "A Unicode escape with one to six hexadecimal digits in either case denotes exactly that codepoint if it is a Unicode scalar value and is an error otherwise, named escapes denote their control characters, an escaped metacharacter denotes itself literally, and any malformed escape is an error. The tokenizer yields one token per unescaped codepoint or complete escape, whose codepoint the documented mask extracts, stamped with the codepoint and byte offset at which it began, and once failed it stays failed until reset.",
     ["inputs", "histories"],
     "All codepoint sequences with any byte widths, all escapes, at any position; all 0x110000 codepoints as escapes.",
     "The tests try one sample of each escape.",
     ["src/parser/token.c", PA],
     [("tokenizer state machine", "src/parser/token.c"), ("escape handling per context", PA)],
     ["passgen_token_parse", "passgen_parse + passgen_generate"])

prop("C08", "UTF-8 decoding and encoding conform to the standard",
     "Decoding accepts exactly the well-formed UTF-8 byte sequences (no overlong forms, surrogates, values above U+10FFFF, stray or missing continuation bytes, also at the very end of the input) and yields their codepoints and byte widths; encoding is its exact inverse and rejects values above U+10FFFF. When the output space runs out both stop at a character boundary, say so, report exactly what was consumed and produced and can be resumed, and neither ever writes beyond the space it was given.",
     ["inputs", "histories"],
     "All byte strings, all codepoint arrays, all output capacities and resumption points.",
     "The tests use fixed samples and one buffer size; truncated input and small buffers are not covered.",
     ["src/util/utf8.c"],
     [("decoder automaton", "src/util/utf8.c:passgen_utf8_decode"), ("encoder", "src/util/utf8.c:passgen_utf8_encode")],
     ["passgen_utf8_decode", "passgen_utf8_encode", "passgen_utf8_encode_codepoint"])

prop("C09", "Any Unicode character passes through patterns unchanged",
     "Every Unicode character other than the ASCII metacharacters is an ordinary character wherever it occurs: as a literal, with a modifier, as a set member or range end, and inside a wordlist name or word, written directly or as a Unicode escape, and it appears in the output unchanged and correctly encoded. No character is mistaken for a metacharacter, and a generated output is always valid UTF-8.",
     ["inputs"],
     "All Unicode scalar values in every syntactic position.",
     "The tests use fewer than ten non-ASCII characters; mistakes such as looking at the low byte only concern thousands of others.",
     [PA, "src/pattern/special.c", "src/util/utf8.c", G],
     [("dispatch on codepoints", PA + ":passgen_parse_group"), ("name encoding", "src/pattern/special.c")],
     ["passgen_parse + passgen_generate_fill_utf8", "CLI stdout"])

prop("C10", "Output buffers are never overrun and all output forms agree",
     "When generating into a caller's buffer of any size nothing is ever written outside it, the returned length is exactly the number of units written, and an output that does not fit is reported as failure (zero), never as a truncated output. For the same pattern and randomness the codepoint, UTF-8, JSON and callback forms describe the same output and the same entropy, and an error returned by the callback stops generation at once and is passed on.",
     ["inputs", "programs"],
     "All patterns, streams and buffer sizes from zero to beyond the output length, in particular each size around the exact fit with multi-byte characters and JSON escapes last.",
     "The tests use buffers much larger than the output.",
     [G],
     [("bounded writers", G + ":passgen_generate_write_buffer_utf8")],
     ["passgen_generate_fill_unicode", "passgen_generate_fill_utf8", "passgen_generate_fill_json_utf8", "passgen_generate"])

prop("C11", "JSON output is always valid JSON carrying the exact outputs",
     "With JSON output requested the tool prints one line holding a valid JSON array with one object per requested output, whose \"output\" string decodes to exactly the sequence plain output would have printed and whose \"entropy\" is a finite number, present exactly when requested. This holds whatever characters the output contains: quotes, backslashes, every control character, any Unicode.",
     ["inputs", "programs"],
     "All patterns including those that yield control characters, quotes, backslashes and non-ASCII, all amounts, with and without entropy.",
     "The tests check one simple output.",
     [G, "src/cli/passgen.c"],
     [("JSON writer", G + ":passgen_generate_write_buffer_json_utf8"), ("array framing", "src/cli/passgen.c:passgen_cli_generate_json")],
     ["CLI -j", "passgen_generate_fill_json_utf8"])

prop("C12", "Bounded random integers are in range and exactly uniform",
     "For every nonzero bound a bounded draw of any width returns a value strictly below the bound, and if the source is uniform every such value is equally likely; a random boolean is true for exactly half of all bytes and unbounded integers take every value equally often. Draws depend on the source bytes in a fixed little-endian way and reject rather than fold values out of range.",
     ["inputs"],
     "All bounds of 8, 16, 32 and 64 bits (exhaustively for 8 bits, with all 16-bit inputs for generated bounds), with emphasis on powers of two and their neighbours and the largest values.",
     "The tests draw some thousand values for a few bounds and only check the upper limit.",
     ["src/random/random.c"],
     [("mask and reject", "src/random/random.c:passgen_random_u64_max")],
     ["passgen_random_u8_max", "passgen_random_u16_max", "passgen_random_u32_max", "passgen_random_u64_max", "passgen_random_bool"])

prop("C13", "No random byte is ever delivered twice, invented or left stale",
     "For every sequence of read requests of any sizes and kinds, the bytes delivered are bytes the source produced, each delivered at most once; requests no larger than the internal buffer deliver the source's bytes in order without gaps, and a larger request delivers bytes fetched directly for it. An explicit reload discards what was buffered and continues with fresh bytes.",
     ["histories"],
     "All sequences of reads of 0 to several thousand bytes, typed draws and reloads on every kind of source, across any number of buffer refills.",
     "The tests read within one buffer; the refill boundary is reached only after a particular number of bytes.",
     ["src/random/random.c", "src/random/system.c", "src/random/xorshift.c", "src/random/deterministic.c"],
     [("buffer position", "src/random/random.c:passgen_random_read")],
     ["passgen_random_read", "passgen_random_u8..u64", "passgen_random_reload"])

prop("C14", "Deterministic random sources produce their published streams",
     "For every key, nonce and read pattern the ChaCha20 source delivers the keystream of the original ChaCha20 with 64-bit block counter and nonce, from any position it is sought to, independent of how it is read; xorshift sources deliver the 13/7/17 64-bit xorshift sequence for their seed, file sources the bytes of the file, the zero source zeroes. Opening a source from its textual description is equivalent to opening it with the same parameters, and a malformed or oversized description is refused.",
     ["inputs", "histories"],
     "All keys, nonces, seeds and file contents, all sequences of reads and seeks including unaligned ones and ones across block and buffer ends, all textual descriptions.",
     "The tests compare one key's first block and one seed.",
     ["src/random/deterministic.c", "src/random/xorshift.c", "src/random/random.c", "src/random/system.c", "src/random/zero.c", "src/monocypher.c"],
     [("block offset bookkeeping", "src/random/deterministic.c:passgen_random_chacha20_read"), ("description parser", "src/random/random.c:passgen_random_open_parse")],
     ["passgen_random_open", "passgen_random_chacha20_open", "passgen_random_chacha20_seek", "passgen_random_xorshift_open", "passgen_random_file_open"])

prop("C15", "Master passphrase mode derives stable, separate secrets",
     "The stream for a master passphrase, domain and token is ChaCha20 keyed by Argon2id (8 KiB, 8 passes, 1 lane, salt \"passgen\") of the passphrase with domain as secret key and token as associated data, so equal inputs give equal passphrases on every run, amount and build, and any difference in one of the three inputs gives an unrelated stream. Command line flags and the textual description of the source are equivalent, absent and empty domain or token are the same, and the derivation primitive agrees with the Argon2 standard for every parameter set.",
     ["inputs", "configurations"],
     "All passphrases, domains and tokens of any length and content (including non-ASCII), all Argon2 types, sizes, passes and lanes.",
     "The tests pin a few CLI outputs for short inputs.",
     ["src/random/deterministic.c", "src/random/random.c", "src/cli/passgen.c", "src/monocypher.c"],
     [("key derivation", "src/random/deterministic.c:passgen_random_chacha20_argon2_open"), ("flag handling", "src/cli/passgen.c:passgen_cli_opts_parse")],
     ["passgen_random_chacha20_argon2_open", "passgen_argon2", "CLI -m/-d/-t", "CLI -r chacha20-argon2:"])

prop("C16", "Failing randomness never yields an output",
     "If the randomness source cannot be opened (missing, invalid, or for lack of memory), ends early, reads short or reports an error at any point, the program stops with a failure status and prints nothing that was generated from bytes the source did not deliver. This holds in debug and release builds, for every source, on the first read as well as on any later refill or large read.",
     ["fault_sequences", "configurations"],
     "Every position in the stream at which a source can fail, every failure kind (missing, unreadable, directory, empty, short file, short read, error return, system call failure, failing allocation), every pattern and amount.",
     "No test injects a failure; checks by assertion vanish in release builds.",
     ["src/random/random.c", "src/random/system.c", "src/cli/passgen.c"],
     [("read length check", "src/random/random.c:passgen_random_reload"), ("open failure path", "src/cli/passgen.c:passgen_cli_opts_random")],
     ["process exit status and stdout", "passgen_random_read"])

prop("C17", "Wordlists offer exactly the words of the file",
     "Loading a wordlist yields exactly the non-empty lines of the file in order, whatever their number, length, characters, or the presence of a final newline, and a word reference outputs exactly one of them in full. Referencing a wordlist that is not loaded, empty or not readable is an error rather than an empty output, and wordlists loaded under different names do not affect each other.",
     ["inputs", "configurations"],
     "All text files (any number of lines around allocation steps, empty lines, very long lines, any UTF-8), regular or not seekable, all names and references.",
     "The tests load three small files.",
     ["src/wordlist.c", G, "src/env.c", "src/cli/passgen.c", "src/container/hashmap.c"],
     [("line splitting", "src/wordlist.c:passgen_wordlist_scan"), ("lookup by name", G + ":passgen_generate_special_wordlist")],
     ["passgen_wordlist_load", "passgen_wordlist_random", "\\\\w{name} in patterns", "CLI -w"])

prop("C18", "Markov generation follows exactly the learned statistics",
     "A chain of order n trained on weighted words records, for every run of n characters occurring in a word padded at the start, exactly how often each next character or the end follows, for any order, alphabet and amount of text. A generated word starts, continues and ends only as some training word does in the same context, each continuation is chosen with probability proportional to its count, and the entropy it adds is that of those choices.",
     ["inputs", "histories"],
     "All training sets (any codepoints, sizes, weights, insertion orders), all orders from 1 to 255, all contexts, all streams.",
     "The tests insert a few ASCII words; growth of the tables under colliding codepoints depends on the concrete characters.",
     ["src/markov.c", "src/wordlist.c", G],
     [("growing perfect-hash tables", "src/markov.c:passgen_markov_leaf_insert"), ("padding at word ends", "src/markov.c:passgen_markov_add")],
     ["passgen_markov_add", "passgen_markov_generate", "passgen_markov_leaf_count", "\\\\m{name} in patterns"])

prop("C19", "The hash map behaves as a map over every history",
     "After every sequence of insertions, replacements, removals, lookups and iterations the map holds exactly the keys last inserted and not removed since, each once and with its latest value; insertion and removal return the previous entry, and the recorded size equals the number of entries. This holds for any keys, however alike or numerous, with byte-string and wide-string keys, for an empty map, and every operation terminates.",
     ["histories"],
     "All operation sequences over adversarial key sets (shared prefixes, empty keys, many keys), both key types.",
     "The tests insert and look up a fixed list; the interplay of displacement with removal needs particular collisions.",
     ["src/container/hashmap.c", "src/util/siphash.c"],
     [("two candidate slots with displacement", "src/container/hashmap.c:passgen_hashmap_insert")],
     ["passgen_hashmap_insert/lookup/remove/foreach"])

prop("C20", "Stack and array containers never lose or corrupt elements",
     "For every history of pushes, pops and accesses and every element size the stack and the array hold exactly the elements pushed and not yet popped, unchanged and in order; popping an empty container and reading past the end of a stack are reported without effect, and iteration visits every element once in order. No history of growing and shrinking accesses memory it does not own, and freeing releases everything.",
     ["histories"],
     "All histories, in particular those that cross block and power-of-two sizes repeatedly in both directions, all element sizes.",
     "The tests grow once and shrink once.",
     ["src/container/stack.c", "src/container/array.c"],
     [("bins and power-of-two growth", "src/container/stack.c:passgen_stack_push")],
     ["passgen_stack_*", "passgen_array_*"])

prop("C21", "Nesting limits are enforced exactly and safely",
     "Generation succeeds exactly when the nesting of chosen groups does not exceed the configured depth limit, and otherwise fails without reporting an output; the limit concerns nesting only, not how many groups are used one after another or repeated. A parser with a limit set rejects exactly the patterns that nest deeper, and no depth of nesting in a pattern exhausts the stack when parsing, generating or freeing.",
     ["inputs", "configurations"],
     "All nesting shapes (deep, wide, repeated, alternatives of different depth) and all limits around their depth.",
     "The tests try one limit.",
     [G, PA, "src/passgen.c", "src/env.c"],
     [("depth counter", G + ":descend/ascend"), ("state stack limit", PA + ":passgen_parse_token")],
     ["passgen_generate", "passgen_parse", "passgen_parse_token with limit"])

prop("C22", "The command line prints exactly what was asked for, or fails",
     "A successful run prints exactly the requested number of outputs in order, separated by newlines (NULs on request) and ended by one newline, with one entropy line each when asked for; options mean the same in short, long, joined and separated form and in any order. Every documented misuse ends with its documented exit status and prints no output, and a run that cannot produce every requested output in full (unknown wordlist, nesting too deep) fails rather than printing an empty or partial one.",
     ["inputs", "configurations"],
     "All combinations, orders and spellings of options and arguments, valid and invalid, with any pattern.",
     "The CLI tests run a few dozen fixed command lines.",
     ["src/cli/passgen.c", "src/cli/main.c"],
     [("option loop", "src/cli/passgen.c:passgen_cli_opts_parse"), ("output loop", "src/cli/passgen.c:passgen_cli_generate_normal")],
     ["stdout, stderr, exit status"])

prop("C23", "Presets produce the formats they promise and can be redefined",
     "Every output of a built-in preset has the documented shape: valid version 4 UUIDs, dash-separated alphanumeric blocks, fifteen-character browser passwords, and proquints with the right number of syllable groups, each covering its full alphabet. A preset defined or redefined by the user behaves exactly like its pattern, the listing shows every preset once with its current pattern, and using a preset equals giving the listed pattern directly.",
     ["inputs", "configurations"],
     "All presets, all randomness, all sequences of user definitions (new names, overriding names, any pattern).",
     "The tests run each preset for one seed.",
     ["src/cli/passgen.c", "src/container/hashmap.c"],
     [("preset table", "src/cli/passgen.c:passgen_cli_opts_init"), ("lookup", "src/cli/passgen.c:passgen_cli_opts_parse")],
     ["CLI -p, -P, -l"])

prop("C24", "Configuration files act exactly like the equivalent options",
     "Each preset, wordlist and random line of the system-wide configuration and then of the user's, with name and value separated by whitespace or a colon, has the effect of the corresponding command line option given before all others; comments, blank and unknown lines have none, and options on the command line override it. No content, size or missing final newline of the file, and no length of the directory path, can crash the program or change how other lines are understood.",
     ["inputs", "configurations"],
     "All configuration files: any mixture and number of lines, any bytes, any size, with and without final newline; all home directories.",
     "No test uses a configuration file.",
     ["src/cli/passgen.c", "src/cli/main.c"],
     [("line scanner", "src/cli/passgen.c:passgen_cli_opts_config_parse")],
     ["CLI behaviour with HOME or XDG_CONFIG_PATH set"])

prop("C25", "No input can corrupt memory, hang or leak",
     "For every byte string given as a pattern, and every random stream, parsing either fails cleanly or yields a pattern that can be generated from any number of times and freed; no step reads or writes memory it does not own, relies on an uninitialised value, fails an internal assertion or runs forever, and afterwards all memory is released, also after a failed parse. The same holds for arbitrary wordlist files and arbitrary command lines.",
     ["inputs", "histories"],
     "All byte strings up to several thousand bytes, grammar-shaped and random, as pattern, wordlist, option values; both build types.",
     "The tests use a fixed list of patterns without memory checking.",
     ["src", "include/passgen"],
     [("ownership of parsed items", "src/pattern/segment_item.c:passgen_pattern_item_free"), ("parser error paths", PA)],
     ["passgen_parse", "passgen_generate*", "passgen_pattern_free", "CLI"])

prop("C26", "Key material and unread randomness are wiped on close",
     "After a randomness source is closed or freed, whatever was done with it before, its structure is all zero and no memory it handed back to the allocator, then or earlier, still contains its key, its generator state or buffered bytes that were not consumed. Freed patterns and environments are likewise left zeroed.",
     ["histories", "inputs"],
     "All sources, keys and histories of use before closing.",
     "Wiped memory is invisible to ordinary tests.",
     ["src/random/random.c", "src/random/deterministic.c", "src/random/xorshift.c", "include/passgen/config.h.in", "src/pattern/pattern.c", "src/env.c"],
     [("PASSGEN_CLEAR", "include/passgen/config.h.in")],
     ["memory of passgen_random after passgen_random_close", "heap blocks at free()"])

prop("C27", "Objects are independent and reusable: no hidden shared state",
     "Interleaving operations on any number of parsers, patterns, environments and randomness sources gives each of them exactly the results it would have alone, and replacing or freeing one never affects another. Generating from a pattern does not change it: the same pattern with the same stream gives the same outputs however often and with whatever else it was used before.",
     ["histories", "schedules"],
     "All interleavings of call sequences over several objects of each kind.",
     "The tests use one object of each kind at a time.",
     ["src/passgen.c", PA, G, "src/random/random.c", "src/wordlist.c", "src/env.c"],
     [("all state in caller-provided objects", "include/passgen")],
     ["whole public API"])

prop("C28", "The sandboxed tool is confined yet fully functional",
     "Built with sandboxing, from before the first option or configuration file is looked at until exit, the process cannot write, create or remove files, start programs or processes, use the network or signal others: any such attempt kills it at once. All documented functions, with any combination of options, patterns and input files, still work exactly as in the build without sandbox.",
     ["programs", "inputs", "configurations"],
     "All forbidden system calls attempted at any library call the tool makes, and all legitimate command lines.",
     "The tests only run legitimate command lines and never attempt a forbidden call.",
     ["src/cli/main.c", "src/cli/passgen.c"],
     [("seccomp filter", "src/cli/passgen.c:passgen_cli_seccomp_init")],
     ["exit status of the process", "file system"])

prop("C29", "Keyed hashing agrees with SipHash-2-4 for every input",
     "The keyed hash used for the maps returns the SipHash-2-4 value of exactly the given bytes under the given key, in its 64-bit and its 128-bit form, for every length and content. It reads nothing outside its input and writes exactly the requested number of bytes.",
     ["inputs"],
     "All inputs, lengths (in particular all residues modulo eight) and keys, both output sizes.",
     "The tests hold the 64 vectors of the reference for one key and consecutive bytes.",
     ["src/util/siphash.c"],
     [("compression rounds", "src/util/siphash.c:passgen_siphash")],
     ["passgen_siphash"])

prop("C30", "Allocator hooks and version queries honour their contracts",
     "An allocation context forwards each kind of request to the caller's function with the caller's state and the exact arguments, falls back to the standard allocator for each kind not set, and contexts do not influence each other. A required version is compatible exactly when its major version equals the library's and the library's minor and patch version is not older.",
     ["configurations", "histories", "inputs"],
     "All subsets of hooks, all sequences of requests over two contexts; all versions asked for, against generated library versions.",
     "The tests compare three versions with the current one, and no test uses a context.",
     ["src/context.c", "src/version.c.in", "include/passgen/context.h"],
     [("hook or default", "src/context.c"), ("lexicographic comparison", "src/version.c.in")],
     ["passgen_malloc/calloc/realloc/free", "passgen_version_compatible"])

prop("C31", "The bundled cryptographic functions compute what is published",
     "For every input, every function of the bundled crypto header gives the published result: BLAKE2b of any size and key, Argon2, ChaCha20 in its three forms and at any block, Poly1305, authenticated encryption (at once, and as a stream of messages that each rekey), X25519 with its conversions, inverse and dirty keys, EdDSA with BLAKE2b and its building blocks, scalars modulo the group order, Elligator, comparison, wiping. Feeding an input in pieces, in place or at another alignment does not matter. A key, message, signature or tag that was altered, non-reduced or of small order is refused, a refused message is not decrypted and a stream goes on after it. States, seeds and secrets that the functions document as wiped are all zero afterwards.",
     ["inputs", "histories"],
     "All keys, nonces, counters, messages, ways to cut them, scalars and field elements, in particular those next to the moduli; all sequences of messages on a stream.",
     "The tests only exercise the few functions the generators use, with a few inputs.",
     ["src/monocypher.c", "include/passgen/monocypher.h"],
     [("carries and reductions", "src/monocypher.c:fe_tobytes"), ("buffering of partial blocks", "src/monocypher.c:crypto_blake2b_update")],
     ["crypto_* functions of the public header"])

prop("C32", "Running out of memory stops a run, it never changes a result",
     "When the system refuses memory, once or from some moment on, a use of the library or a run of the tool that ends well yields exactly what it yields with enough memory: no output, word, count, map entry or container element is missing, added or different. Otherwise it reports failure or stops; the tool then ends unsuccessfully and has printed at most a prefix of the right outputs. What was handed out before stays as it is, and memory that was given back is not used. (A configuration file that cannot be opened for lack of memory counts as absent.)",
     ["inputs", "faults"],
     "All patterns, wordlists, chains, container histories, sources and command lines; every allocation of the run as the one refused, alone or with all after it.",
     "The tests never run out of memory.",
     ["src/container", "src/wordlist.c", "src/markov.c", "src/parser/parser.c", "src/random", "src/cli/passgen.c"],
     [("growing and shrinking of a container", "src/container/stack.c:passgen_stack_pop"), ("reading a list in pieces", "src/wordlist.c:passgen_wordlist_read")],
     ["all operations that allocate", "the command line"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
