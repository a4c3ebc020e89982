from rules.common import *
from rules import c07, finite
from rules.c07 import find_nodes, unres, SIDES
rule = 'acceptance implies the defined values of every tag, flag, version, length and narrow integer'
explanation = 'Each decoder is interpreted on an arbitrary unending input (primitive members are the specified function of the bytes at their position); the condition under which it accepts must imply the specified acceptance condition, and no accepted value may contain a narrowing conversion that can lose information. Each encoder is interpreted on an arbitrary value: the condition under which it succeeds must imply that the value has an encoding, and nothing it writes may contain a lossy narrowing conversion.'
assumptions = ['nested decoders satisfy their own obligation', 'an input that ends early is covered by C07']
floor = 150

def stream(r): return mk('call', 'stream', r, M.VECU8)
def bytes_at(r, pos, n): return as_seq(SEQ(SUB(stream(r), pos, n)))
def u64at(r, pos): return M.LS('unle', lambda v: T.UNLE('le', 8, v), bytes_at(r, pos, INT(8)))
def u8at(r, pos): return index(stream(r), pos, ('int', 'u8'))
def fits(v, nm):
    """the 64-bit word v is the sign or zero extension of a value of the type"""
    w = T.WIDTH[nm]
    if nm[0] == 'u' or w == 64: return LE(v, INT((1 << w) - 1))
    return OR(LT(v, INT(1 << (w - 1))), GE(v, INT((1 << 64) - (1 << (w - 1)))))
def utlo(): return T.CALL_RANGE['unix']
def narrow(v, nm): return T.CAST(nm, v)

def expand(I, kind, ty, r, pos):
    """(value, length, accepted) of a primitive member at a position"""
    k = ty[0]
    if k == 'int' and ty[1] == 'u8': return u8at(r, pos), INT(1), TRUE
    if k == 'int' and ty[1] in ('u16', 'u32', 'u64', 'usize', 'i16', 'i32', 'i64'):
        v = u64at(r, pos)
        return narrow(v, ty[1]), INT(8), fits(v, ty[1])
    if k == 'bool':
        b = u8at(r, pos)
        return EQ(b, INT(1)), INT(1), LE(b, INT(1))
    if k == 'array' and ty[1] == ('int', 'u8'):
        n = teval.alen(ty)
        if n is not None: return bytes_at(r, pos, INT(n)), INT(n), TRUE
    if k == 'adt':
        if ty[1] == S.ODT and kind == 'v2':
            v = narrow(u64at(r, pos), 'i64'); lo, hi = utlo()
            return M.fromunix(v), INT(8), AND(GE(v, INT(lo)), LE(v, INT(hi)))
        if ty[1] == 'alloc::vec::Vec' and ty[2][0] == ('int', 'u8'):
            n = u64at(r, pos)
            return bytes_at(r, add(pos, INT(8)), n), add(INT(8), n), TRUE
        if ty[1] == S.CUR:
            if kind == 'v2': return ADT(S.CUR, 0, T.UNLE('le', 16, bytes_at(r, pos, INT(16)))), INT(16), TRUE
        a = I.P.adts.get(ty[1])
        if a and a['local'] and a['kind'] == 'Struct' and len(a['variants'][0][1]) == 1:
            ft = I.field_ty(ty, 0, 0)
            if ft and ft[0] == 'array' and ft[1] == ('int', 'u8') and teval.alen(ft) is not None:
                n = teval.alen(ft)
                return ADT(ty[1], 0, bytes_at(r, pos, INT(n))), INT(n), TRUE
    return None

def spec_accept(I, kind, t):
    """necessary condition for acceptance at position 0, or None"""
    r = 'r'; z = INT(0)
    if t[0] == 'adt' and t[1] == OPT:
        return LE(u8at(r, z), INT(1))
    if t[0] in ('int', 'bool'):
        return expand(I, kind, t, r, z)[2]
    if t[0] != 'adt': return None
    n = t[1]
    if n == S.ODT and kind == 'v2': return expand(I, kind, t, r, z)[2]
    if n == S.DUR: return LE(u64at(r, z), INT(2 ** 63 - 1))
    if n == 'alloc::string::String': return M.bcall('utf8', bytes_at(r, INT(8), u64at(r, z)))
    if n == S.CUR and kind == 'v1': return LE(u64at(r, z), INT(16))
    if n == S.SP:
        tag = u8at(r, INT(1)); ts = narrow(u64at(r, INT(2)), 'i64'); lo, hi = utlo()
        return AND(AND(EQ(u8at(r, z), INT(1)), AND(GE(tag, INT(1)), LE(tag, INT(7)))), OR(NOT(EQ(tag, INT(2))), AND(GE(ts, INT(lo)), LE(ts, INT(hi)))))
    if n == S.V2 + 'Transaction': return EQ(u8at(r, z), INT(2))
    return None

def resolution(I, ok):
    """the tag byte is the first byte after the parent element"""
    p = mk('call', 'declen', mk('call', 'dec_v2<FileContractElement>', 'r', INT(0), S.A(S.V2 + 'FileContractElement')), ('int', 'usize'))
    return LE(u8at('r', p), INT(2))

def lossy(n, ok):
    """narrowing conversions in n that can lose something while ok holds"""
    for x in find_nodes(n):
        if x.op == 'cast' and x.a[0] in T.WIDTH and not bvset(x):
            lo, hi = rng(x.a[1]); w = T.WIDTH[x.a[0]]
            if hi - lo < 1 << w: continue
            if x.a[1].op == 'unle' and 8 * x.a[1].a[1] <= w: continue
            l, h = T.RANGES[x.a[0]]
            out = OR(LT(x.a[1], INT(l)), GT(x.a[1], INT(h)))
            if l < 0 and lo >= 0 and hi < 1 << 64: out = AND(out, LT(x.a[1], INT((1 << 64) + l)))
            z = AND(ok, out) if ok.op in ('ite', 'bool') else out
            if z is FALSE: continue
            yield x, z

def decode_(P, im, t, kind):
    I = fresh(P); nested_hook(I); I.decok = True; I.generic = True; I.dec_expand = expand
    st = St(TRUE, {})
    rd = I.alloc(st, mk('rd', 'stream', 'r', INT(0)))
    r = I.call_key(impl_fn(im, 'decode', 'decode_v1'), [mk('mref', rd, ())], st, {})
    ok = M.isok(r)
    cs = []
    want = resolution(I, ok) if t[0] == 'adt' and t[1] == S.V2 + 'FileContractResolution' else spec_accept(I, kind, t)
    if want is not None: cs.append(implies(I, ok, want))
    cs += loss(I, r, ok)
    v = both(*cs)
    if v[0] == 'undecided' and want is not None and want is not TRUE:
        v = finite.mutated(P, im, t, kind, want) or v
    if v[0] != 'violated':
        # a member that is rejected makes the whole rejected
        n = c07.run(P, im, t, 'decode', kind)
        if n[0] == 'violated' and ('decode' in n[1] or 'input ends' in n[1] or 'read' in n[1]): return n
    return v

def implies(I, ok, want):
    z = AND(ok, NOT(want))
    if z is FALSE: return ('equal', '')
    c = cmpq.compare(I, S, z, FALSE)
    return c if c[0] != 'differ' else ('differ', 'accepts where it must not: ' + c[1])

def loss(I, v, ok):
    for x, z in lossy(v, ok):
        # a value that does not fit must be excluded, unless the other side of the value checks it
        c = cmpq.compare(I, S, AND(z, TRUE), FALSE)
        if c[0] != 'equal': yield (c[0], 'lossy conversion %s' % show(x)[:200])

def encode_(P, im, t, kind):
    I = fresh(P); nested_hook(I)
    st = St(TRUE, {})
    self = SYM('self', t)
    w = I.alloc(st, mk('sink', 'w', (), mk('seq')))
    r = I.call_key(impl_fn(im, 'encode', 'encode_v1'), [self, mk('mref', w, ())], st, {})
    ok = M.isok(r)
    s = I.load(st, (w, ()))
    cs = []
    if t[0] == 'adt' and t[1] == S.DUR:
        ns = M.wns(self)
        cs.append(implies(I, ok, AND(GE(ns, INT(0)), LE(ns, INT(2 ** 63 - 1)))))
    if t[0] == 'adt' and t[1] == S.SP:
        vi = S.vidx(t[1], 'Threshold')
        cs.append(implies(I, ok, OR(NOT(ISV(self, vi, 7)), LE(LEN(FLD(self, vi, 1, I.field_ty(t, vi, 1))), INT(255)))))
    if s.op == 'sink': cs += loss(I, s.a[2], ok)
    return both(*cs)

NEEDED = [('v2', 'decode', x) for x in 'bool Option<T> u16 u32 i16 i32 OffsetDateTime Duration String SpendPolicy Transaction FileContractResolution'.split()] + [('v1', 'decode', x) for x in 'bool String Currency SiafundOutput'.split()]
def obligations(P, tier):
    out = []; have = set()
    I0 = fresh(P)
    for v, side, tr in SIDES:
        for im, t in impls(P, tr):
            k = impl_fn(im, 'encode', 'encode_v1', 'decode', 'decode_v1')
            if k is None: continue
            t = I0.strip(t)
            have.add((v, side, tyname(t)))
            out.append(Ob('%s %s %s' % (v, side, tyname(t)), where(P, k), rule, lambda im=im, t=t, v=v, side=side: (decode_ if side == 'decode' else encode_)(P, im, t, v)))
    for n in NEEDED:
        if n not in have: out.append(missing('%s %s %s' % n, '%s %s of %s' % n))
    return out
