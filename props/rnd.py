"""Read histories of a randomness source against the buffered-source model."""
from .common import *

NAMES = ["read", "u8", "u16", "u32", "u64", "bool", "u8_max", "u16_max", "u32_max", "u64_max", "reload", "seek"]


def read_size(t):
    k = t.n(0, 6)
    if k == 0:
        return t.n(0, 16)
    if k == 1:
        return t.n(0, 300)
    if k == 2:
        return 1024 + t.n(0, 8) - 4
    if k == 3:
        return t.n(0, 1030)
    if k == 4:
        return t.n(1000, 4200)
    if k == 5:
        return 512 * t.n(0, 8) + t.n(0, 2) - 1 if t.chance(7, 8) else 65536 + t.n(0, 3)
    return 1 << t.n(0, 11)


def bound(t, op):
    bits = 8 << (op - 6)
    k = t.n(0, 2)
    v = t.n(1, 255) if k == 0 else (1 << t.n(0, bits)) + t.n(0, 2) - 1 if k == 1 else \
        int.from_bytes(t.bytes(bits // 8), "little")
    return max(1, min(v, (1 << bits) - 1))


def history(t, most=30, seek=False, reload=True):
    out = []
    for _ in range(t.n(1, most)):
        k = t.n(0, 9)
        if k < 4:
            out.append((0, max(0, read_size(t))))
        elif k < 6:
            out.append((t.n(1, 5), 0))
        elif k < 8:
            op = t.n(6, 9)
            out.append((op, bound(t, op)))
        elif seek and t.chance(1, 2):
            out.append((11, t.pick([t.n(0, 200), t.n(0, 5000), 64 * t.n(0, 1 << 30), (1 << 38) - t.n(0, 3000),
                                    (1 << 38) + t.n(0, 200), t.n(0, 1 << 62), (1 << 32) - t.n(0, 1100)])))
        elif reload and t.chance(1, 2):
            out.append((10, 0))
        else:
            # land exactly on, or next to, the end of the buffer
            out.append((12, t.pick([0, 0, 1, 2, 3, 5, 8])))
    return out


def concrete(ops):
    """Resolves op 12 (read up to `arg` bytes before the end of the buffer)."""
    pos = 0
    out = []
    for op, arg in ops:
        if op == 12:
            op, arg = 0, max(0, 1024 - pos - arg)
        out.append((op, arg))
        if op == 0:
            if arg <= 1024:
                pos = (pos + arg) % 1024
        elif op in (10, 11):
            pos = 0
        elif op <= 5:
            pos = (pos + (1 if op == 5 else 1 << (op - 1))) % 1024
        else:
            pos = (pos + (1 << (op - 6))) % 1024
    return out


def run_ops(w, spec, ops, heap):
    r = w.call(W.u8(6) + W.u8(1 if heap else 0) + spec + W.u32(len(ops)) +
               b"".join(W.u8(o) + W.u64(a) for o, a in ops))
    if r.u8() != 1:
        r.end()
        return None
    out = [r.blob() if o == 0 else r.u64() for o, a in ops]
    r.end()
    return out


def compare(ctx, got, source, ops):
    """got equals the model of the source, whether buffers are refilled when
    they are used up or when more is asked for."""
    need(got is not None, "the source could not be opened")
    first = None
    for eager in (True, False):
        m = model.RandomModel(source(), eager)
        want = [m.op(o, a) for o, a in ops]
        if want == got:
            ctx.label("refill", m.refills)
            ctx.label("crosses several buffers", m.refills > 2)
            ctx.label("direct", m.direct)
            ctx.label("discards", m.dropped)
            ctx.nontrivial(m.refills or m.direct or m.dropped)
            return m
        i = next(i for i in range(len(ops)) if want[i] != got[i])
        if first is None or i > first[0]:
            first = (i, want[i])
    i, want = first
    got = got[i]
    if isinstance(got, bytes):
        j = next((j for j in range(min(len(got), len(want))) if got[j] != want[j]), 0)
        raise Violation("operation %d (%s %d): byte %d.. is %s, expected %s" % (
            i, NAMES[ops[i][0]], ops[i][1], j, got[j:j + 12].hex(), want[j:j + 12].hex()))
    raise Violation("operation %d (%s %d): %d, expected %d" % (i, NAMES[ops[i][0]], ops[i][1], got, want))
