"""decoders on spelled-out inputs that end: used when a decoder cannot be summarised for an arbitrary reader"""
from rules.common import *
from teval import Ev, Unknown, Undef, Rand
import time

def generic(im, t):
    """concrete arguments for the parameters of an implementation"""
    return {g: (('cval', '5'),) if "('cparam', '%s')" % g in repr(t) else ('int', 'u16') for g in im.get('generics') or []}

def inst(t, m):
    if isinstance(t, tuple):
        if t[:1] == ('param',) and t[1] in m: return m[t[1]]
        if len(t) == 1 and isinstance(t[0], tuple) and t[0][:1] == ('cparam',) and t[0][1] in m: return m[t[0][1]]
        return tuple(inst(x, m) for x in t)
    return t

def decode(P, im, kind, data, chunk, m):
    """(accepted?, bytes left) of a decoder on a finite input delivered in pieces of at most chunk bytes; None when not resolved"""
    I = fresh(P); I.finite = chunk
    st = St(TRUE, {})
    rd = I.alloc(st, mk('rd', 'seq', 'r', as_seq(SEQ(LIT(tuple(data)))) if data else mk('seq')))
    def hook(I_, c, targs, args, st, x, fr, rty):
        ty = I_.strip(targs[0]) if targs else None
        return M.None_decode(Hook(I_, c, targs, args, st, x, rty), kind, ty) if ty and I_.find_impl(c['trait'], (ty,)) else None
    for k in M.TR_DEC: I.hooks[k] = hook
    r = I.call_key(impl_fn(im, 'decode', 'decode_v1'), [mk('mref', rd, ())], st, m)
    e = Ev(I, S, 0, [])
    try:
        if st.pc is FALSE: return 'panic', 0
        if st.pc is not TRUE and not e.truth(st.pc): return 'panic', 0
        ok = e.truth(M.isok(r))
    except (Unknown, Undef, RecursionError): return None
    left = None
    a = I.load(st, (rd, ()))
    if a.op == 'rd':
        try: left = len(e.seqv(a.a[2]))
        except (Unknown, Undef, RecursionError): pass
    return ok, left

class Hook:
    def __init__(self, I, c, targs, args, st, x, rty): self.I, self.c, self.targs, self.args, self.st, self.x, self.rty = I, c, targs, args, st, x, rty

def samples(P, im, t, kind, tries):
    """byte strings that encode values of the type"""
    m = generic(im, t)
    I = fresh(P)
    src = I.strip(inst(I.strip(t), m))
    s = SYM('self', src)
    exp = S.expand(kind, src, s)
    if exp is None: exp = as_seq(SEQ(mk('enc', kind, src, s)))
    for seed in range(tries):
        e = Ev(I, S, seed, []); e.short = seed % 4 != 3
        try: b = [int(x) for x in e.seqv(exp)]
        except (Unknown, Undef, RecursionError): continue
        if len(b) <= 3000: yield seed, b

def check(P, im, t, kind, tries=10, budget=40):
    """('violated', text) | ('holds', n) | None: every strict prefix of an encoding is rejected without a panic, however the reader splits it"""
    t0 = time.time(); n = 0
    m = generic(im, t)
    for seed, b in samples(P, im, t, kind, tries):
        r = decode(P, im, kind, b + [7] * 9, 1 + seed * 2, m)
        if r is None: continue
        if r[0] is not True: continue                  # outside the domain of the encoder, or C01's business
        L = len(b)
        for k in sorted({0, 1, L // 3, L // 2, L - 2, L - 1} | {(seed * 7 + j * 5) % max(1, L) for j in range(3)}):
            if not 0 <= k < L: continue
            for chunk in (1, 1 << 20):
                if time.time() - t0 > budget: return ('holds', n) if n else None
                q = decode(P, im, kind, b[:k], chunk, m)
                if q is None: continue
                n += 1
                if q[0] == 'panic': return ('violated', 'the input ends after %d of %d bytes: panic (%s)' % (k, L, bytes(b[:k]).hex()[:200]))
                if q[0]: return ('violated', 'the input ends after %d of the %d bytes of an encoding and the decoder reports success (%s)' % (k, L, bytes(b[:k]).hex()[:200]))
    return ('holds', n) if n else None

def mutated(P, im, t, kind, want, tries=12, budget=40):
    """('violated', text) | None: encodings with a byte changed are rejected where the acceptance condition (a term over the input) says so"""
    t0 = time.time(); m = generic(im, t)
    def allowed(seed, data):
        e = Ev(fresh(P), S, seed, [])
        n = len(data)
        e.memo[mk('call', 'stream', 'r', M.VECU8).id] = teval.LList(1 << 40, lambda i: data[i] if i < n else 7)
        return e.truth(want)
    for seed, b in samples(P, im, t, kind, tries):
        if decode(P, im, kind, b + [7] * 9, 1 << 20, m) != (True, 9): continue
        r = Rand('mutated', seed)
        for j in range(24):
            if time.time() - t0 > budget: return None
            c = list(b)
            i = r(min(len(c), (2, 9, len(c))[j % 3])) if c else 0
            if not c: break
            c[i] = (0, 1, 2, 3, 9, 17, 127, 128, 255, r(256), c[i] ^ 1, c[i] ^ 128)[r(12)]
            try:
                if allowed(seed, c): continue
            except (Unknown, Undef, RecursionError): continue
            q = decode(P, im, kind, c + [7] * 400, 1 << 20, m)
            if q is None: continue
            if q[0] is True: return ('violated', 'accepts the malformed input %s' % bytes(c).hex()[:300])
            if q[0] == 'panic': return ('violated', 'panics on the malformed input %s' % bytes(c).hex()[:300])
    return None

def encode(P, im, kind, val, chunk, capacity, m, zero=False):
    """(success, bytes written) of an encoder into a writer that takes at most chunk bytes at a time and capacity bytes in all"""
    I = fresh(P); I.finite = chunk; I.capacity = capacity; I.zero = zero
    st = St(TRUE, {})
    def hook(I_, c, targs, args, st, x, fr, rty):
        ty = I_.strip(targs[0]) if targs else None
        return M.None_decode(Hook(I_, c, targs, args, st, x, rty), kind, ty) if ty and I_.find_impl(c['trait'], (ty,)) else None
    for k in M.TR_ENC: I.hooks[k] = hook
    w = I.alloc(st, mk('sink', 'w', (), mk('seq')))
    r = I.call_key(impl_fn(im, 'encode', 'encode_v1'), [val, mk('mref', w, ())], st, m)
    e = Ev(I, S, 0, [])
    s = I.load(st, (w, ()))
    try:
        if st.pc is FALSE or st.pc is not TRUE and not e.truth(st.pc): return 'panic', None
        return e.truth(M.isok(r)), list(e.seqv(s.a[2])) if s.op == 'sink' else None
    except (Unknown, Undef, RecursionError): return None

def check_encode(P, im, t, kind, tries=8, budget=40):
    """('violated', text) | ('holds', n) | None: a writer that takes only a part gets everything or the encoder fails"""
    import api
    t0 = time.time(); n = 0; m = generic(im, t)
    ty = fresh(P).strip(inst(fresh(P).strip(t), m))
    for seed in range(tries):
        sp = api.Special(P, seed)
        val = sp.get('self', ty)
        if symbolic(val, {}): continue
        a = encode(P, im, kind, val, 1 << 20, 1 << 40, m)
        if a is None or a[0] is not True or a[1] is None or len(a[1]) > 3000: continue
        L = len(a[1])
        for chunk, cap in [(1, 1 << 40), (3, 1 << 40), (1 << 20, L - 1), (1, L - 1), (1 << 20, L // 2), (1, L // 2), (1 << 20, 0), (5, L // 3)]:
            if time.time() - t0 > budget: return ('holds', n) if n else None
            if cap < 0 or cap >= L and cap < 1 << 40: continue
            q = encode(P, im, kind, val, chunk, cap, m, seed % 2 == 1)
            if q is None: continue
            n += 1
            if q[0] == 'panic': return ('violated', 'a writer that takes %d bytes at a time and fails after %d of %d bytes: panic' % (chunk, min(cap, L), L))
            if q[0] and (q[1] is None or len(q[1]) < L): return ('violated', 'a writer that takes %d bytes at a time and fails after %d of %d bytes: success is reported and %s bytes were written' % (chunk, min(cap, L), L, '?' if q[1] is None else len(q[1])))
    return ('holds', n) if n else None

def symbolic(n, seen):
    if isinstance(n, tuple): return any(symbolic(x, seen) for x in n)
    if not isinstance(n, Node): return False
    if n.id not in seen: seen[n.id] = False; seen[n.id] = n.op == 'sym' or any(symbolic(x, seen) for x in n.a)
    return seen[n.id]
