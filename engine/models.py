"""Summaries of the functions outside the analysed crate (std, blake2b_simd, hex, ...).

Every summary is a transfer function on abstract values; what is not listed becomes an
unknown value (never a guess).
"""
from terms import *
import terms as T

CONSTS = {}
def const_of(key):
    if key.startswith('time::offset_date_time::') and key.endswith('::UNIX_EPOCH'): return CONSTS['time::OffsetDateTime::UNIX_EPOCH']
    if key.startswith('time::duration::'): return CONSTS.get('time::Duration::' + key.rsplit('::', 1)[-1])
ASSOC_CONST = {}
OPAQUE = set()

U8 = ('int', 'u8'); USIZE = ('int', 'usize'); BOOLT = ('bool',); STR = ('str',)
VECU8 = ('adt', 'alloc::vec::Vec', (U8,))
ORD = 'core::cmp::Ordering'
RG = 'core::ops::range::'

INTN = ['i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize']

TR_ENC = {'sia::encoding::v2::SiaEncodable::encode': 'v2', 'sia::encoding::v1::V1SiaEncodable::encode_v1': 'v1'}
TR_DEC = {'sia::encoding::v2::SiaDecodable::decode': 'v2', 'sia::encoding::v1::V1SiaDecodable::decode_v1': 'v1'}

class Cx:
    __slots__ = ('I', 'c', 'targs', 'args', 'st', 'x', 'fr', 'rty', 'key', 'name')
    def v(self, i):
        return self.I.rval(self.st, self.args[i])
    def seq(self, i):
        v = self.v(i)
        return v if v.op in ('ite',) else as_seq(v)

def LS(name, f, *args):
    """lift a structural operation over diagrams"""
    if any(a.op == 'ite' for a in args): return lift(name, f, *args)
    return f(*args)

def HB(n, x): return mk('hb', 'blake2b', n, as_seq(x) if x.op != 'ite' else x)
def strip(t):
    while t and (t[0] == 'ref' or t[0] == 'adt' and t[1] in ('alloc::boxed::Box', 'alloc::rc::Rc', 'alloc::sync::Arc', 'alloc::borrow::Cow')):
        t = t[2] if t[0] == 'ref' else t[2][-1] if t[2] else ('unk',)
        if isinstance(t, tuple) and t and t[0] == 'region': t = ('unk',)
    return t

# ------------------------------------------------------------------ installation
def install(I):
    T.ENUMS.setdefault(RES, 2); T.ENUMS.setdefault(OPT, 2); T.ENUMS.setdefault(CF, 2); T.ENUMS.setdefault(ORD, 3)
    OPAQUE.clear()
    for k in I.P.bodies:
        if k.startswith('sia::types::work::{impl#'):
            b = I.P.bodies[k]
            it = b.get('impltrait') or ''
            # the arithmetic of the uint crate (macro generated) is outside the analysis
            if b['span'].split(':')[0].endswith('work.rs') and ('encoding::' in it): continue
            if it.endswith('::From') and '[u8; 32]' in b['pretty'] and '&' in b['pretty']: continue
            if 'serde' in k or 'serde' in it: continue
            OPAQUE.add(k)

def uint_name(key):
    return key.rsplit('::', 1)[1]

# ------------------------------------------------------------------ generic helpers
def isok(v): return ISV(v, 0, 2)
def issome(v): return ISV(v, 1, 2)
def okv(v, ty=None): return FLD(v, 0, 0, ty)
def errv(v, ty=None): return FLD(v, 1, 0, ty)
def somev(v, ty=None): return FLD(v, 1, 0, ty)

def inner(ty, i=0):
    ty = strip(ty) if ty else None
    if ty and ty[0] == 'adt' and len(ty[2]) > i: return strip(ty[2][i])
    return None

def cases(cx, cond, f, g):
    st = cx.st
    c = cx.I.cond(cond, st)
    if c is TRUE: return f(st)
    if c is FALSE: return g(st)
    return cx.I.branch(st, c, f, g)

def follow(I, st, r):
    """place behind nested mutable references: (place, value)"""
    for _ in range(8):
        if r.op != 'mref': return None, r
        v = I.load(st, (r.a[0], r.a[1]))
        if v.op == 'mref': r = v
        else: return (r.a[0], r.a[1]), v
    return None, r

def uncall(cx, name=None, *vals, ty=None):
    """uninterpreted application"""
    t = strip(ty or cx.rty or ('unk',))
    return wrapb(mk('call', name or cx.key, *vals, t), t)

def tyarg(cx, i=0):
    return strip(cx.targs[i]) if len(cx.targs) > i else None

# ------------------------------------------------------------------ main dispatch
def call(I, c, targs, args, st, x, fr, rty):
    cx = Cx()
    cx.I = I; cx.c = c; cx.targs = targs; cx.args = args; cx.st = st; cx.x = x; cx.fr = fr
    cx.rty = rty; cx.key = c['key']; cx.name = c['name']
    tr = c.get('trait')
    full = (tr + '::' + c['name']) if tr else None
    if full in TR_ENC: return do_encode(cx, TR_ENC[full])
    if full in TR_DEC: return do_decode(cx, TR_DEC[full])
    r = None
    if I.serde and (cx.key.startswith('serde') or 'serde' in (tr or '') or cx.key.startswith('time::serde')):
        import serde_model
        r = serde_model.call(cx)
        if r is not None: return r
    h = H.get(cx.name)
    if h is not None: r = h(cx)
    if r is None and cx.key.startswith('core::num::'): r = num_call(cx)
    if r is None and 'sia::types::work::' in cx.key: r = work_call(cx)
    if r is None and (cx.key.startswith('serde') or 'serde' in (tr or '')): r = serde_call(cx)
    if r is None:
        I.unk_calls.append((cx.key, x.get('sp') if x else None))
        I.havoc(args, st)
        if rty == ('never',): return I.diverge(st)
        return UNK('call ' + cx.key)
    return r

H = {}
def model(*names):
    def d(f):
        for n in names: H[n] = f
        return f
    return d

# ------------------------------------------------------------------ encode / decode of values
PRIM = ('int', 'bool')
def do_encode(cx, kind):
    """x.encode(w) where the implementation is not (or must not be) inlined"""
    I = cx.I
    ty = strip(cx.targs[0])
    val = cx.v(0)
    if val.op == 'seq' and ty[0] in ('slice', 'array', 'str'): pass
    pl, s = follow(I, cx.st, cx.args[1])
    if s.op != 'sink' or pl is None:
        I.havoc(cx.args, cx.st)
        return UNK('encode into ' + s.op)
    if cx.st.pc is FALSE: return UNDEF
    p = SPEC.encode_seq(kind, ty, val) if SPEC else None
    if p is None:
        p = enc_piece(kind, ty, val)
    I.store(cx.st, pl, mk('sink', s.a[0], s.a[1], CONCAT(s.a[2], p)))
    if I.fails and s.a[0] == 'w': return fail_result(cx, 'encode ' + tyname(ty))
    return OK(UNIT)

SPEC = None     # set by the specification module: primitives are expanded at once

def enc_piece(kind, ty, val):
    if val.op == 'ite' and not has_alt_free(val):
        return lift('encp%s%s' % (kind, ty), lambda v: mk('seq', mk('enc', kind, ty, v)), val)
    return mk('seq', mk('enc', kind, ty, val))
def has_alt_free(v): return False

def fail_result(cx, what): return fail_result2(cx.I, cx.st, cx.x, what)
def fail_atom(I, st, x, what):
    site = (I.stack[-1][0], x['sp'] if x else '?', what)
    I.nfail = getattr(I, 'nfail', 0) + 1
    a = mk('fail', I.nfail, tuple(I.loop_ix))
    I.fail_sites.append((a, st.pc, site, tuple(I.loop_ix)))
    return ATOM(a)
def only_if(I, c):
    a, pc, site, lix = I.fail_sites[-1]
    I.fail_sites[-1] = (a, AND(pc, c), site, lix)
def fail_result2(I, st, x, what):
    at = fail_atom(I, st, x, what)
    return ITE(at, ERR(mk('call', 'ioerr', INT(I.nfail), ('unk',))), OK(UNIT))

def do_decode(cx, kind):
    I = cx.I
    ty = strip(cx.targs[0])
    pl, r = follow(I, cx.st, cx.args[0])
    I.dec_types.add((kind, ty, cx.x.get('sp') if cx.x else None))
    if r.op != 'rd' or pl is None:
        I.havoc(cx.args, cx.st)
        return UNK('decode from ' + r.op)
    if r.a[0] == 'seq':
        s = r.a[2]
        v = take_enc(I, cx.st, s, kind, ty)
        if v is None:
            return None_decode(cx, kind, ty)
        val, rest = v
        I.store(cx.st, pl, mk('rd', 'seq', r.a[1], rest))
        return OK(val)
    pos = r.a[2]
    if I.dec_expand:
        e = I.dec_expand(I, kind, ty, r.a[1], pos)
        if e is not None:
            val, ln, ok = e
            I.store(cx.st, pl, mk('rd', 'stream', r.a[1], add(pos, ln)))
            return ITE(ok, OK(val), ERR(mk('call', 'decerr', ('unk',))))
    nm = 'dec_%s<%s>' % (kind, tyname(ty))
    val = wrapb(mk('call', nm, r.a[1], pos, ty), ty)
    ln = mk('call', 'declen', mk('call', nm, r.a[1], pos, ty), USIZE)
    I.store(cx.st, pl, mk('rd', 'stream', r.a[1], add(pos, ln)))
    if I.fails: 
        res = fail_result(cx, 'decode ' + tyname(ty))
        return ITE(isok(res), OK(val), ERR(mk('call', 'ioerr', INT(I.nfail), ('unk',))))
    if I.decok:
        return ITE(ATOM(mk('bcall', 'decok', mk('call', nm, r.a[1], pos, ty))), OK(val), ERR(mk('call', 'decerr', ('unk',))))
    return OK(val)

def None_decode(cx, kind, ty):
    """no such piece at the head: interpret the implementation on the spelled out bytes"""
    I = cx.I
    tr = cx.c['trait']
    im = I.find_impl(tr, (ty,))
    if im:
        for n, k, _ in im[0]['items']:
            if n == cx.c['name']:
                b = I.P.bodies[k]
                sub_ = dict(im[1])
                ig = [g for g in b['generics'] if g not in im[0]['generics']]
                sub_.update(zip(ig, cx.targs[cx.c['ntrait']:]))
                return I.call_local(k, cx.args, cx.st, sub_, cx.rty, cx.x)
    I.havoc(cx.args, cx.st)
    return UNK('decode of %s from spelled out bytes' % tyname(ty))

def take_enc(I, st, s, kind, ty):
    """head piece enc(kind, ty, v) -> (v, rest)"""
    s = resolve_alt(I, st, s)
    if s.op == 'altite':
        bad = []
        def f(z):
            r = take_enc(I, st, z, kind, ty)
            if r is None: bad.append(z); return UNDEF
            return mk('tup', r[0], r[1])
        r = alt_cases(s.a[0], s.a[1], f)
        if bad or r.op == 'undef': return None
        return FLD(r, 0, 0, ty), FLD(r, 0, 1, None)
    if s.op != 'seq' or not s.a: return None
    p = s.a[0]
    if p.op == 'enc' and p.a[0] == kind and strip(p.a[1]) == ty:
        return p.a[2], mk('seq', *s.a[1:])
    return None

_fn = [0]
def fresh_n():
    _fn[0] += 1
    return _fn[0]

def resolve_alt(I, st, s):
    """resolve leading alternatives that the path condition decides"""
    s = as_seq(s)
    for _ in range(60):
        if s.op != 'seq' or not s.a or s.a[0].op != 'alt': return s
        m = constrain(s.a[0].a[0], st.pc)
        rest = s.a[1:]
        if m.op == 'ite': return mk('altite', m, tuple(rest))
        if m.op != 'sl': return m
        s = as_seq(SEQ(*m.a[0].a, *rest))
    return s

def alt_cases(m, rest, f):
    """apply f to every alternative of the diagram m (followed by rest); f -> Node"""
    def g(z):
        if z.op == 'undef': return UNDEF
        return f(as_seq(SEQ(*z.a[0].a, *rest)))
    return lift('altc%d' % fresh_n(), g, m)

def take_bytes(I, st, s, n):
    """first n bytes of the sequence: (bytes seq, rest) or None"""
    s = as_seq(s)
    if s.op != 'seq': return None
    if n is INT(0): return mk('seq'), s
    if not s.a: return None
    s = resolve_alt(I, st, s)
    if s.op == 'altite':
        bad = []
        def f(z):
            r = take_bytes(I, st, z, n)
            if r is None:
                bad.append(z); return UNDEF
            return mk('tup', r[0], r[1])
        r = alt_cases(s.a[0], s.a[1], f)
        if bad or r.op == 'undef': return None
        return FLD(r, 0, 0, VECU8), FLD(r, 0, 1, None)
    if s.op != 'seq' or not s.a: return None
    p = s.a[0]
    if p.op == 'enc':
        q = SPEC.flatten1(p) if SPEC else None
        if q is None: return None
        return take_bytes(I, st, CONCAT(q, mk('seq', *s.a[1:])), n)
    if p.op in ('map', 'tail', 'phi'): 
        return None
    l = piece_len(p)
    if l is n: return mk('seq', p), mk('seq', *s.a[1:])
    d = sub(l, n)
    if rng(d)[0] >= 0:
        a = piece_slice(p, INT(0), n, l); b = piece_slice(p, n, d, l)
        if a is None or b is None: return None
        return as_seq(SEQ(a)), CONCAT(as_seq(SEQ(b)), mk('seq', *s.a[1:]))
    d2 = sub(n, l)
    if rng(d2)[0] >= 0:
        r = take_bytes(I, st, mk('seq', *s.a[1:]), d2)
        if r is None: return None
        return CONCAT(mk('seq', p), r[0]), r[1]
    return None

def rd_iter_head(I, v, i):
    if v.a[0] == 'stream':
        return None
    s = as_seq(v.a[2])
    if s.op != 'seq' or not s.a: return None
    p = s.a[0]
    tail = mk('seq', mk('tail', i))
    rest = mk('seq', *s.a[1:])
    if p.op == 'map':
        body = subst(p.a[1], {mk('bv', p.a[2]): i})
        def left(n):
            j = fresh_index('j')
            return mk('rd', 'seq', v.a[1], CONCAT(as_seq(SEQ(MAP(sub(p.a[0], n), j, subst(p.a[1], {mk('bv', p.a[2]): add(n, j)})))), rest))
        return (mk('rd', 'seq', v.a[1], CONCAT(body, tail)), (mk('rd', 'seq', v.a[1], tail), mk('rd', 'seq', v.a[1], rest), left), p.a[0])
    if p.op == 'sub':
        body = as_seq(SEQ(SUB(p.a[0], add(p.a[1], i), INT(1))))
        def left(n): return mk('rd', 'seq', v.a[1], CONCAT(as_seq(SEQ(SUB(p.a[0], add(p.a[1], n), sub(p.a[2], n)))), rest))
        return (mk('rd', 'seq', v.a[1], CONCAT(body, tail)), (mk('rd', 'seq', v.a[1], tail), mk('rd', 'seq', v.a[1], rest), left), p.a[2])
    return None

def recursive(I, key, args, st, sub_, rty, x):
    """recursive call of a helper that writes to / reads from a stream"""
    rds = [(a,) + follow(I, st, a) for a in args if a.op == 'mref']
    sinks = [z for z in rds if z[2].op == 'sink']
    readers = [z for z in rds if z[2].op == 'rd']
    plain = [I.rval(st, a) for a in args if a.op != 'mref']
    if len(sinks) == 1 and len(rds) == 1 and not any(esc(p) for p in plain):
        a, pl, s = sinks[0]
        I.store(st, pl, mk('sink', s.a[0], s.a[1], CONCAT(s.a[2], mk('seq', mk('enc', 'fn:' + key, ('fn',), mk('tup', *plain))))))
        if I.fails and s.a[0] == 'w' and I.strip(rty or ('unk',))[0] == 'adt': return fail_result2(I, st, x, 'encode (recursive)')
        return OK(UNIT) if I.strip(rty or ('unk',))[0] == 'adt' else UNIT
    if len(readers) == 1:
        a, pl, r = readers[0]
        if r.a[0] == 'seq':
            s = as_seq(r.a[2])
            if s.op == 'seq' and s.a and s.a[0].op == 'enc' and (s.a[0].a[0].startswith('fn:') or s.a[0].a[0] == 'policy'):
                v = s.a[0].a[2]
                v = v.a[0] if v.op == 'tup' else v
                # other mutable arguments are work budgets: assumed not to run out (see C05)
                I.store(st, pl, mk('rd', 'seq', r.a[1], mk('seq', *s.a[1:])))
                return OK(v)
        else:
            pos = r.a[2]
            val = mk('call', 'decfn:' + key, r.a[1], pos, I.strip(rty)[2][0] if rty and I.strip(rty)[0] == 'adt' and I.strip(rty)[1] == RES else ('unk',))
            I.store(st, pl, mk('rd', 'stream', r.a[1], add(pos, mk('call', 'declen', val, USIZE))))
            if I.fails:
                res = fail_result2(I, st, x, 'decode (recursive)')
                return ITE(isok(res), OK(val), ERR(mk('call', 'ioerr', INT(I.nfail), ('unk',))))
            if I.decok:
                return ITE(ATOM(mk('bcall', 'decok', val)), OK(val), ERR(mk('call', 'decerr', ('unk',))))
            return OK(val)
    return None

def esc(n):
    import interp
    return interp.esc(n)

# ------------------------------------------------------------------ writers / readers
def full(I, s, n):
    """how many of n more bytes a writer of limited capacity takes"""
    have = LEN(s.a[2])
    if have.op != 'int' or n.op != 'int': return None
    return max(0, min(n.a[0], I.capacity - have.a[0]))

@model('write_all')
def _(cx):
    I = cx.I
    pl, s = follow(I, cx.st, cx.args[0])
    buf = cx.seq(1)
    if pl is None or s.op not in ('sink', 'seq') and not vecish(s):
        # a std::io::Write of unknown kind
        I.havoc(cx.args, cx.st)
        return UNK('write_all to ' + s.op)
    if s.op == 'sink':
        if I.finite and s.a[0] == 'w':
            z = full(I, s, LEN(buf))
            if z is None: return None
            if z < LEN(buf).a[0]:
                I.store(cx.st, pl, mk('sink', s.a[0], s.a[1], CONCAT(s.a[2], slice_(as_seq(buf), INT(0), INT(z)))))
                return ERR(mk('call', 'ioerr', INT(-1), ('unk',)))
        I.store(cx.st, pl, mk('sink', s.a[0], s.a[1], CONCAT(s.a[2], buf)))
        if I.fails and s.a[0] == 'w': return fail_result(cx, 'write_all')
    else:
        I.store(cx.st, pl, CONCAT(as_seq(s), buf))
    return OK(UNIT)

def vecish(v):
    t = node_ty(v)
    return bool(t and t[0] == 'adt' and t[1] == 'alloc::vec::Vec')

@model('write_str')
def _(cx):
    pl, s = follow(cx.I, cx.st, cx.args[0])
    if pl is None or s.op not in ('sink', 'seq'): return None
    b = cx.seq(1)
    if s.op == 'sink': cx.I.store(cx.st, pl, mk('sink', s.a[0], s.a[1], CONCAT(s.a[2], b)))
    else: cx.I.store(cx.st, pl, CONCAT(s, b))
    return OK(UNIT)

@model('write_char')
def _(cx):
    pl, s = follow(cx.I, cx.st, cx.args[0])
    if pl is None or s.op not in ('sink', 'seq'): return None
    v = cx.v(1)
    if rng(v)[1] > 127: return None
    b = as_seq(SEQ(ONE(v)))
    if s.op == 'sink': cx.I.store(cx.st, pl, mk('sink', s.a[0], s.a[1], CONCAT(s.a[2], b)))
    else: cx.I.store(cx.st, pl, CONCAT(s, b))
    return OK(UNIT)

@model('flush')
def _(cx):
    pl, s = follow(cx.I, cx.st, cx.args[0])
    if s.op == 'sink' and cx.I.fails and s.a[0] == 'w':
        r = fail_result(cx, 'flush')
        for at in cx.I.bufs: r = ITE(at, ERR(mk('call', 'ioerr', INT(-2), ('unk',))), r)
        return r
    return OK(UNIT)

@model('write')
def _(cx):
    """io::Write::write may accept only a part of the buffer"""
    I = cx.I
    t = cx.c.get('trait') or ''
    if not (t.endswith('::Write') and '::io::' in t): return None
    pl, s = follow(I, cx.st, cx.args[0])
    buf = cx.seq(1)
    if pl is None or s.op != 'sink' or s.a[0] != 'w': return None
    n = LEN(buf)
    if I.finite:
        z = full(I, s, n)
        if z is None: return None
        if z == 0 and n.a[0] and not I.zero: return ERR(mk('call', 'ioerr', INT(-1), ('unk',)))
        z = min(z, I.finite)
        I.store(cx.st, pl, mk('sink', s.a[0], s.a[1], CONCAT(s.a[2], slice_(as_seq(buf), INT(0), INT(z)))))
        return OK(INT(z))
    if I.in_loop: I.read_loops += 1
    I.store(cx.st, pl, mk('sink', s.a[0], s.a[1], CONCAT(s.a[2], buf)))
    if not I.fails: return OK(n)
    r = fail_result(cx, 'write')
    # a partial write that is not followed up is a failure of the writer nobody reports
    sh = fail_atom(I, cx.st, cx.x, 'write (accepting only a part)') if not I.in_loop else FALSE
    if sh is not FALSE: only_if(I, GT(n, INT(0)))
    return ITE(isok(r), OK(ITE(sh, INT(0), n)), r)

def is_read(cx):
    t = cx.c.get('trait') or ''
    return t.endswith('::Read') and '::io::' in t
def rd_limit(I, st, v):
    """(place, reader, limit) behind take adapters"""
    lim = None
    for _ in range(6):
        if v.op == 'rdt':
            lim = v.a[1] if lim is None else ITE(LT(v.a[1], lim), v.a[1], lim)
            v = v.a[0]; continue
        if v.op != 'mref': return None
        w = I.load(st, (v.a[0], v.a[1]))
        if w.op == 'rd': return (v.a[0], v.a[1]), w, lim
        v = w
    return None

@model('read')
def _(cx):
    """io::Read::read may deliver only a part of the buffer"""
    I = cx.I
    if not is_read(cx): return None
    pl, r = follow(I, cx.st, cx.args[0])
    bp, buf = follow(I, cx.st, cx.args[1])
    if pl is None or r.op != 'rd' or bp is None: return None
    n = LEN(as_seq(buf)) if buf.op != 'ite' else LEN(buf)
    if r.a[0] == 'seq' and I.finite:
        left = LEN(as_seq(r.a[2]))
        if left.op != 'int' or n.op != 'int': return None
        k = min(left.a[0], n.a[0], I.finite)
        t = take_bytes(I, cx.st, r.a[2], INT(k))
        if t is None: return None
        I.store(cx.st, bp, CONCAT(as_seq(t[0]), slice_(as_seq(buf), INT(k), INT(n.a[0] - k))))
        I.store(cx.st, pl, mk('rd', 'seq', r.a[1], t[1]))
        return OK(INT(k))
    if r.a[0] != 'stream': return None
    if I.in_loop: I.read_loops += 1
    pos = r.a[2]
    I.store(cx.st, bp, as_seq(SEQ(SUB(mk('call', 'stream', r.a[1], VECU8), pos, n))))
    I.store(cx.st, pl, mk('rd', 'stream', r.a[1], add(pos, n)))
    if not I.fails: return OK(n)
    x = fail_result(cx, 'read')
    sh = fail_atom(I, cx.st, cx.x, 'read (delivering only a part)') if not I.in_loop else FALSE
    if sh is not FALSE: only_if(I, GT(n, INT(0)))
    return ITE(isok(x), OK(ITE(sh, INT(0), n)), x)

@model('read_to_end')
def _(cx):
    """read_to_end of a limited reader: the end of input may come first"""
    I = cx.I
    if not is_read(cx): return None
    q = rd_limit(I, cx.st, cx.args[0])
    bp, buf = follow(I, cx.st, cx.args[1])
    if q is None or q[2] is None or bp is None or q[1].a[0] != 'stream': return None
    pl, r, n = q
    pos = r.a[2]
    data = mk('call', 'stream', r.a[1], VECU8)
    sh = FALSE
    if I.fails:
        x = fail_result(cx, 'read_to_end')
        sh = fail_atom(I, cx.st, cx.x, 'read_to_end (input ending early)')
        only_if(I, GT(n, INT(0)))
    k = ITE(AND(sh, GT(n, INT(0))), INT(0), n)
    I.store(cx.st, bp, LS('rte', lambda b: CONCAT(as_seq(b), as_seq(SEQ(SUB(data, pos, k)))), buf) if k.op != 'ite' else ITE(AND(sh, GT(n, INT(0))), as_seq(buf), CONCAT(as_seq(buf), as_seq(SEQ(SUB(data, pos, n))))))
    I.store(cx.st, pl, mk('rd', 'stream', r.a[1], add(pos, n)))
    if I.fails: return ITE(isok(x), OK(k), x)
    return OK(n)

@model('kind')
def _(cx):
    if 'io' in cx.key and cx.rty: return wrapb(mk('call', 'iokind', cx.v(0), strip(cx.rty)), strip(cx.rty))

@model('read_exact')
def _(cx):
    I = cx.I
    pl, r = follow(I, cx.st, cx.args[0])
    bp, buf = follow(I, cx.st, cx.args[1])
    if pl is None or r.op != 'rd' or bp is None:
        I.havoc(cx.args, cx.st)
        return UNK('read_exact from ' + r.op)
    n = LEN(as_seq(buf)) if buf.op != 'ite' else LEN(buf)
    if r.a[0] == 'seq':
        if I.finite and n.op == 'int' and LEN(as_seq(r.a[2])).op == 'int' and LEN(as_seq(r.a[2])).a[0] < n.a[0]:
            I.store(cx.st, pl, mk('rd', 'seq', r.a[1], mk('seq')))
            return ERR(mk('call', 'ioerr', INT(-1), ('unk',)))
        t = take_bytes(I, cx.st, r.a[2], n)
        if t is None:
            I.havoc(cx.args, cx.st)
            return UNK('read_exact: bytes not aligned')
        I.store(cx.st, bp, t[0] if t[0].op == 'ite' else as_seq(t[0]))
        I.store(cx.st, pl, mk('rd', 'seq', r.a[1], t[1]))
        return OK(UNIT)
    pos = r.a[2]
    data = mk('call', 'stream', r.a[1], VECU8)
    I.store(cx.st, bp, as_seq(SEQ(SUB(data, pos, n))))
    I.store(cx.st, pl, mk('rd', 'stream', r.a[1], add(pos, n)))
    if I.fails: return fail_result(cx, 'read_exact')
    return OK(UNIT)

# ------------------------------------------------------------------ Try, conversions
@model('branch')
def _(cx):
    v = cx.v(0); t = tyarg(cx)
    if t and t[0] == 'adt' and t[1] == OPT:
        return ITE(issome(v), ADT(CF, 0, somev(v, inner(t))), ADT(CF, 1, NONE))
    ok, er = inner(t), inner(t, 1)
    return ITE(isok(v), ADT(CF, 0, okv(v, ok)), ADT(CF, 1, ERR(errv(v, er))))

@model('from_residual')
def _(cx):
    v = cx.v(0); t = strip(cx.targs[0])
    if t[0] == 'adt' and t[1] == OPT: return NONE
    e = FLD(v, 1, 0, inner(cx.targs[1], 1) if len(cx.targs) > 1 else None)
    te = inner(t, 1); fe = inner(cx.targs[1], 1) if len(cx.targs) > 1 else None
    return ERR(convert(cx, e, fe, te))

@model('from_output')
def _(cx):
    t = strip(cx.targs[0])
    return SOME(cx.v(0)) if t[1] == OPT else OK(cx.v(0))

def convert(cx, v, f, t):
    """From::from(v) : f -> t"""
    I = cx.I
    f0, t0 = strip(f) if f else None, strip(t) if t else None
    if t0 is None or f0 == t0: return v
    if is_int_t(f0) and is_int_t(t0): return v
    if f0 and f0[0] == 'bool' and is_int_t(t0): return ITE(v, INT(1), INT(0))
    im = I.find_impl('core::convert::From', (t, f)) or I.find_impl('core::convert::From', (t0, f)) or I.find_impl('core::convert::From', (t0, f0))
    if im:
        for n, k, _ in im[0]['items']:
            if n == 'from' and k in I.P.bodies and k not in OPAQUE:
                return I.call_local(k, [v], cx.st, dict(im[1]), t0, cx.x)
            if n == 'from' and k in OPAQUE:
                return mk('call', 'uint::from', v, t0)
    if t0[0] == 'adt' and t0[1] in ('alloc::vec::Vec', 'alloc::string::String') and f0 and (f0[0] in ('array', 'slice', 'str') or f0[0] == 'adt' and f0[1] in ('alloc::string::String', 'alloc::vec::Vec')):
        return v
    if t0[0] == 'adt' and t0[1] == OPT and strip(t0[2][0]) == f0: return SOME(v)
    if t0[0] in ('slice', 'str'): return v
    return mk('call', 'from', v, t0)

def is_int_t(t): return bool(t) and t[0] in ('int', 'char')

@model('from')
def _(cx):
    if cx.c.get('trait') != 'core::convert::From': return None
    if bigt(cx.targs[0]): return big_conv(cx, cx.v(0), None, cx.targs[0])
    return convert(cx, cx.v(0), cx.targs[1] if len(cx.targs) > 1 else None, cx.targs[0])

@model('into')
def _(cx):
    if cx.c.get('trait') != 'core::convert::Into': return None
    if bigt(cx.targs[1]): return big_conv(cx, cx.v(0), None, cx.targs[1])
    return convert(cx, cx.v(0), cx.targs[0], cx.targs[1])

def try_convert(cx, v, f, t):
    f0, t0 = strip(f) if f else None, strip(t) if t else None
    if is_int_t(t0) and is_int_t(f0):
        lo, hi = RANGES[t0[1] if t0[0] == 'int' else 'char']
        return ITE(AND(GE(v, INT(lo)), LE(v, INT(hi))), OK(v), ERR(mk('call', 'tryfromint', ('adt', 'core::num::error::TryFromIntError', ()))))
    if t0 and t0[0] == 'array':
        n = base_len(mk('sym', 'x', t0))
        return ITE(EQ(LEN(v), n), OK(v), ERR(mk('call', 'tryfromslice', ('unk',))))
    I = cx.I
    im = I.find_impl('core::convert::TryFrom', (t, f)) or I.find_impl('core::convert::TryFrom', (t0, f0))
    if im:
        for n, k, _ in im[0]['items']:
            if n == 'try_from' and k in I.P.bodies and k not in OPAQUE:
                return I.call_local(k, [v], cx.st, dict(im[1]), None, cx.x)
    if I.find_impl('core::convert::From', (t, f)) or f0 == t0:
        return OK(convert(cx, v, f, t))
    return None

@model('try_from')
def _(cx):
    if cx.c.get('trait') != 'core::convert::TryFrom': return None
    return try_convert(cx, cx.v(0), cx.targs[1], cx.targs[0])
@model('try_into')
def _(cx):
    if cx.c.get('trait') != 'core::convert::TryInto': return None
    return try_convert(cx, cx.v(0), cx.targs[0], cx.targs[1])

@model('clone', 'to_owned', 'borrow', 'as_ref', 'deref', 'into_boxed_slice', 'into_vec', 'to_vec', 'as_slice', 'as_str',
       'into_string', 'as_bytes', 'must_use', 'as_deref', 'copied', 'cloned', 'black_box', 'into_bytes', 'identity', 'into_owned',
       'box_assume_init_into_vec_unsafe', 'by_ref_', 'as_array', 'from_utf8_unchecked', 'new_debug_', 'to_array')
def _(cx):
    k = cx.key
    if cx.name == 'as_bytes' and 'blake2b_simd' in k:
        v = cx.v(0)
        return v if v.op == 'ite' else as_seq(v)
    if cx.name in ('copied', 'cloned') and 'iter' in k: return itv(cx, 0)
    if k.startswith(('core::', 'alloc::', 'std::', 'blake2b_simd::')) : return cx.v(0)
    return None

@model('as_mut', 'deref_mut', 'borrow_mut', 'as_mut_slice', 'by_ref', 'as_deref_mut')
def _(cx):
    if cx.name == 'as_mut' and 'option' in cx.key:
        pl, v = follow(cx.I, cx.st, cx.args[0])
        if pl is None: return v
        t = inner(cx.targs[0]) if cx.targs else None
        c = issome(v)
        return ITE(c, SOME(mk('mref', pl[0], pl[1] + (('f', 1, 0, strip(cx.targs[0]) if cx.targs else None),))), NONE)
    return cx.args[0]

@model('write_box_via_move')
def _(cx): return cx.v(1)
@model('new_uninit')
def _(cx): return UNDEF
@model('box_new', 'exchange_malloc')
def _(cx): return cx.v(0)

@model('replace')
def _(cx):
    if cx.key.startswith('core::mem') or cx.key.startswith('core::option'):
        pl, v = follow(cx.I, cx.st, cx.args[0])
        if pl is None: return None
        cx.I.store(cx.st, pl, cx.v(1) if cx.key.startswith('core::mem') else SOME(cx.v(1)))
        return v
@model('take')
def _(cx):
    if cx.key.startswith('core::mem') or cx.key.startswith('core::option'):
        pl, v = follow(cx.I, cx.st, cx.args[0])
        if pl is None: return None
        d = NONE if cx.key.startswith('core::option') else default_of(cx, strip(cx.targs[0]))
        if d is None: return None
        cx.I.store(cx.st, pl, d)
        return v
    if is_read(cx): return mk('rdt', cx.args[0], cx.v(1))
    if 'iter' in cx.key:
        d = itd(cx, 0)
        if d is None: return None
        return mk('it', mk('d_take', d, cx.v(1)), INT(0))
@model('swap')
def _(cx):
    if cx.key.startswith('core::mem'):
        p, v = follow(cx.I, cx.st, cx.args[0]); q, w = follow(cx.I, cx.st, cx.args[1])
        if p is None or q is None: return None
        cx.I.store(cx.st, p, w); cx.I.store(cx.st, q, v)
        return UNIT
    if 'slice' in cx.key:
        p, v = follow(cx.I, cx.st, cx.args[0])
        if p is None: return None
        i, j = cx.v(1), cx.v(2)
        L = LEN(v)
        cx.I.panic(cx.st, OR(GE(i, L), GE(j, L)), 'index', cx.x)
        a, b = index(v, i), index(v, j)
        v = LS('swp', lambda v: store_at(v, i, INT(1), SEQ(ONE(b))), v)
        v = LS('swp', lambda v: store_at(v, j, INT(1), SEQ(ONE(a))), v)
        cx.I.store(cx.st, p, v)
        return UNIT

def default_of(cx, t):
    if t is None: return None
    if t[0] == 'int': return INT(0)
    if t[0] == 'bool': return FALSE
    if t[0] == 'tuple': 
        ds = [default_of(cx, strip(x)) for x in t[1]]
        return None if any(d is None for d in ds) else mk('tup', *ds)
    if t[0] == 'adt' and t[1] in ('alloc::vec::Vec', 'alloc::string::String'): return mk('seq')
    if t[0] == 'adt' and t[1] == OPT: return NONE
    if t[0] == 'array':
        d = default_of(cx, strip(t[1]))
        return None if d is None else as_seq(SEQ(REP(base_len(mk('sym', 'x', t)), d)))
    I = cx.I
    im = I.find_impl('core::default::Default', (t,))
    if im:
        for n, k, _ in im[0]['items']:
            if n == 'default' and k in I.P.bodies and k not in OPAQUE:
                return I.call_local(k, [], cx.st, dict(im[1]), t, cx.x)
            if n == 'default' and k in OPAQUE:
                return mk('call', 'uint::zero', t)
    return None

@model('default')
def _(cx):
    return default_of(cx, strip(cx.targs[0]) if cx.targs else strip(cx.rty))

@model('size_of')
def _(cx):
    t = cx.targs[0]
    if t[0] == 'int': return INT(WIDTH[t[1]] // 8)
    if t[0] == 'array' and strip(t[1])[0] == 'int': return scale(base_len(mk('sym', 'x', t)), WIDTH[strip(t[1])[1]] // 8)
    return None

@model('drop', 'forget', 'compiler_fence', 'fence')
def _(cx): return UNIT
@model('write_volatile')
def _(cx):
    v = cx.v(1)
    if cx.I.vol is not None: v = cx.I.vol(v, cx.targs[0] if cx.targs else ('unk',))
    cx.I.write_ref(cx.st, cx.args[0], v)
    return UNIT

@model('call', 'call_once', 'call_mut')
def _(cx):
    if 'function' not in cx.key: return None
    a = cx.v(1)
    if a.op != 'tup': return None
    return cx.I.apply(cx.args[0], list(a.a), cx.st, cx.x)

@model('discriminant_value')
def _(cx):
    v = cx.v(0)
    t = strip(cx.targs[0]) if cx.targs else None
    n = T.ENUMS.get(t[1]) if t and t[0] == 'adt' else None
    if not n: return None
    r = INT(n - 1)
    for j in range(n - 2, -1, -1): r = ITE(ISV(v, j, n), INT(j), r)
    return r
@model('transmute')
def _(cx):
    f, t = strip(cx.targs[0]), strip(cx.targs[1])
    if f == t: return cx.v(0)
    return None

# ------------------------------------------------------------------ panics
@model('panic', 'panic_fmt', 'assert_failed', 'panic_display', 'panic_explicit', 'unreachable_display', 'begin_panic',
       'panic_nounwind', 'unwrap_failed', 'expect_failed', 'assert_failed_inner', 'unreachable', 'panic_const', 'const_panic_fmt', 'panic_str_2015')
def _(cx):
    if not cx.key.startswith(('core::', 'std::', 'alloc::')): return None
    cx.I.panic(cx.st, TRUE, 'panic', cx.x)
    return cx.I.diverge(cx.st)

# ------------------------------------------------------------------ Option / Result
def rty_of(cx, i=0):
    return strip(cx.targs[i]) if len(cx.targs) > i else None

def is_opt(cx): return 'option' in cx.key
def is_res(cx): return 'result' in cx.key

def self_inner(cx):
    """(good condition, good value, bad value or None)"""
    v = cx.v(0)
    if is_opt(cx): return issome(v), somev(v, rty_of(cx)), None, v
    return isok(v), okv(v, rty_of(cx)), errv(v, rty_of(cx, 1)), v

def optres(cx): return is_opt(cx) or is_res(cx)

@model('unwrap', 'expect', 'unwrap_unchecked')
def _(cx):
    if not optres(cx): return None
    g, val, _, v = self_inner(cx)
    cx.I.panic(cx.st, NOT(g) if g.op in ('ite', 'bool') else g, 'unwrap', cx.x)
    if cx.st.pc is FALSE: return UNDEF
    return constrain(val, g) if val.op == 'ite' and g.op == 'ite' else val

@model('unwrap_err', 'expect_err')
def _(cx):
    if not is_res(cx): return None
    g, val, e, v = self_inner(cx)
    cx.I.panic(cx.st, g, 'unwrap', cx.x)
    return e if cx.st.pc is not FALSE else UNDEF

@model('is_some', 'is_ok')
def _(cx): return self_inner(cx)[0] if optres(cx) else None
@model('is_none', 'is_err')
def _(cx): return NOT(self_inner(cx)[0]) if optres(cx) else None

@model('unwrap_or')
def _(cx):
    if not optres(cx): return None
    g, val, _, v = self_inner(cx)
    return ITE(g, val, cx.v(1))
@model('unwrap_or_default')
def _(cx):
    if not optres(cx): return None
    g, val, _, v = self_inner(cx)
    d = default_of(cx, rty_of(cx))
    return None if d is None else ITE(g, val, d)
@model('unwrap_or_else')
def _(cx):
    if not optres(cx): return None
    g, val, e, v = self_inner(cx)
    return cases(cx, g, lambda s: val, lambda s: cx.I.apply(cx.args[1], [] if e is None else [e], s, cx.x))

@model('map')
def _(cx):
    if optres(cx):
        g, val, e, v = self_inner(cx)
        o = is_opt(cx)
        w = (lambda z: SOME(z)) if o else (lambda z: OK(z))
        def f(s):
            r = cx.I.apply(cx.args[1], [val], s, cx.x)
            return w(r) if s.pc is not FALSE else UNDEF
        return cases(cx, g, f, lambda s: NONE if o else ERR(e))
    if 'iter' in cx.key:
        d = itd(cx, 0)
        return None if d is None else mk('it', mk('d_map', d, cx.I.rval(cx.st, cx.args[1])), INT(0))
@model('map_err')
def _(cx):
    if not is_res(cx): return None
    g, val, e, v = self_inner(cx)
    return cases(cx, g, lambda s: OK(val), lambda s: ERR(cx.I.apply(cx.args[1], [e], s, cx.x)))
@model('map_or')
def _(cx):
    if not optres(cx): return None
    g, val, e, v = self_inner(cx)
    return cases(cx, g, lambda s: cx.I.apply(cx.args[2], [val], s, cx.x), lambda s: cx.v(1))
@model('map_or_else')
def _(cx):
    if not optres(cx): return None
    g, val, e, v = self_inner(cx)
    return cases(cx, g, lambda s: cx.I.apply(cx.args[2], [val], s, cx.x), lambda s: cx.I.apply(cx.args[1], [] if e is None else [e], s, cx.x))
@model('is_some_and', 'is_ok_and')
def _(cx):
    if not optres(cx): return None
    g, val, e, v = self_inner(cx)
    return cases(cx, g, lambda s: cx.I.apply(cx.args[1], [val], s, cx.x), lambda s: FALSE)
@model('is_none_or')
def _(cx):
    g, val, e, v = self_inner(cx)
    return cases(cx, g, lambda s: cx.I.apply(cx.args[1], [val], s, cx.x), lambda s: TRUE)
@model('and_then')
def _(cx):
    if not optres(cx): return None
    g, val, e, v = self_inner(cx)
    return cases(cx, g, lambda s: cx.I.apply(cx.args[1], [val], s, cx.x), lambda s: NONE if e is None else ERR(e))
@model('and')
def _(cx):
    if not optres(cx): return None
    g, val, e, v = self_inner(cx)
    return ITE(g, cx.v(1), NONE if e is None else ERR(e))
@model('or')
def _(cx):
    if not optres(cx): return None
    g, val, e, v = self_inner(cx)
    return ITE(g, v, cx.v(1))
@model('or_else')
def _(cx):
    if not optres(cx): return None
    g, val, e, v = self_inner(cx)
    return cases(cx, g, lambda s: v, lambda s: cx.I.apply(cx.args[1], [] if e is None else [e], s, cx.x))
@model('ok_or')
def _(cx):
    g, val, e, v = self_inner(cx)
    return ITE(g, OK(val), ERR(cx.v(1)))
@model('ok_or_else')
def _(cx):
    g, val, e, v = self_inner(cx)
    return cases(cx, g, lambda s: OK(val), lambda s: ERR(cx.I.apply(cx.args[1], [], s, cx.x)))
@model('ok')
def _(cx):
    if not is_res(cx): return None
    g, val, e, v = self_inner(cx)
    return ITE(g, SOME(val), NONE)
@model('err')
def _(cx):
    if not is_res(cx): return None
    g, val, e, v = self_inner(cx)
    return ITE(g, NONE, SOME(e))
@model('transpose')
def _(cx):
    v = cx.v(0); t = [strip(x) for x in cx.targs]
    if cx.key.startswith('core::option') and len(t) >= 2:
        r = somev(v, ('adt', RES, (t[0], t[1])))
        return ITE(issome(v), ITE(isok(r), OK(SOME(okv(r, t[0]))), ERR(errv(r, t[1]))), OK(NONE))
    if cx.key.startswith('core::result') and len(t) >= 2:
        o = okv(v, ('adt', OPT, (t[0],)))
        return ITE(isok(v), ITE(issome(o), SOME(OK(somev(o, t[0]))), NONE), SOME(ERR(errv(v, t[1]))))

@model('then')
def _(cx):
    if 'bool' not in cx.key: return None
    return cases(cx, cx.v(0), lambda s: SOME(cx.I.apply(cx.args[1], [], s, cx.x)), lambda s: NONE)
@model('then_some')
def _(cx):
    return ITE(cx.I.cond(cx.v(0), cx.st), SOME(cx.v(1)), NONE)
@model('insert', 'get_or_insert')
def _(cx):
    return None

# ------------------------------------------------------------------ comparison
@model('eq')
def _(cx):
    if not cx.c.get('trait', '').endswith('PartialEq'): return None
    return EQ(norm_eq(cx.v(0)), norm_eq(cx.v(1)))
@model('ne')
def _(cx):
    if not cx.c.get('trait', '').endswith('PartialEq'): return None
    r = None
    im = cx.I.find_impl('core::cmp::PartialEq', tuple(cx.targs)) or cx.I.find_impl('core::cmp::PartialEq', tuple(strip(t) for t in cx.targs))
    if im:
        for n, k, _ in im[0]['items']:
            if n == 'eq' and k in cx.I.P.bodies and k not in OPAQUE:
                r = cx.I.call_local(k, [cx.v(0), cx.v(1)], cx.st, dict(im[1]), BOOLT, cx.x)
    if r is None: r = EQ(norm_eq(cx.v(0)), norm_eq(cx.v(1)))
    return NOT(r) if r.op in ('ite', 'bool') else r
def norm_eq(v):
    if v.op in ('hb', 'bytes', 'hex', 'arr'): return as_seq(v)
    return v

def ordv(c_lt, c_eq):
    return ITE(c_lt, mk('adt', ORD, 0), ITE(c_eq, mk('adt', ORD, 1), mk('adt', ORD, 2)))
def bcall(name, *a): return ATOM(mk('bcall', name, *a))

def lessthan(cx, a, b):
    t = tyarg(cx)
    if is_int(a) or is_int(b) or (t and t[0] in ('int', 'char')): return LT(a, b)
    if t and strip(t) == DUR: return LT(wns(a), wns(b))
    if t and t[0] == 'adt':
        im = cx.I.find_impl('core::cmp::PartialOrd', (t, t)) or cx.I.find_impl('core::cmp::PartialOrd', (t,))
        A = cx.I.P.adts.get(t[1])
        if im and A and A['kind'] == 'Struct' and A['local']:
            if im[0].get('derived') and len(A['variants'][0][1]) == 1:
                ft = cx.I.strip(cx.I.tsub(cx.I.P.ty(A['variants'][0][1][0][1]), dict(zip(A['generics'], t[2]))))
                if ft[0] == 'int': return LT(FLD(a, 0, 0, ft), FLD(b, 0, 0, ft))
            if not im[0].get('derived'):
                for n, k, _ in im[0]['items']:
                    if n == 'partial_cmp' and k in cx.I.P.bodies and not any(f[0] == k for f in cx.I.stack):
                        r = cx.I.call_local(k, [a, b], cx.st, dict(im[1]), None, cx.x)
                        return AND(ISV(r, 1, 2), ISV(FLD(r, 1, 0, ('adt', ORD, ())), 0, 3))
    return bcall('lt', a, b)

@model('cmp')
def _(cx):
    if cx.c.get('trait', '').endswith('Ord'):
        a, b = cx.v(0), cx.v(1)
        return ordv(lessthan(cx, a, b), EQ(norm_eq(a), norm_eq(b)))
    if 'iter' in cx.key:
        return uncall(cx, 'itercmp', itdesc_key(cx, 0), itdesc_key(cx, 1), ty=('adt', ORD, ()))
def itdesc_key(cx, i):
    v = cx.v(i)
    return v
@model('partial_cmp')
def _(cx):
    a, b = cx.v(0), cx.v(1)
    return SOME(ordv(lessthan(cx, a, b), EQ(norm_eq(a), norm_eq(b))))
@model('lt')
def _(cx):
    if 'cmp' not in cx.key: return None
    return lessthan(cx, cx.v(0), cx.v(1))
@model('ge')
def _(cx):
    if 'cmp' not in cx.key: return None
    return NOT(lessthan(cx, cx.v(0), cx.v(1)))
@model('gt')
def _(cx):
    if 'cmp' not in cx.key: return None
    return lessthan(cx, cx.v(1), cx.v(0))
@model('le')
def _(cx):
    if 'cmp' not in cx.key: return None
    return NOT(lessthan(cx, cx.v(1), cx.v(0)))
@model('min')
def _(cx):
    if 'cmp' not in cx.key: return None
    a, b = cx.v(0), cx.v(1)
    return ITE(lessthan(cx, b, a), b, a)
@model('max')
def _(cx):
    if 'cmp' not in cx.key: return None
    a, b = cx.v(0), cx.v(1)
    return ITE(lessthan(cx, b, a), a, b)
@model('is_lt', 'is_eq', 'is_gt', 'is_le', 'is_ge', 'is_ne')
def _(cx):
    v = cx.v(0)
    l, e, g = ISV(v, 0, 3), ISV(v, 1, 3), ISV(v, 2, 3)
    return {'is_lt': l, 'is_eq': e, 'is_gt': g, 'is_le': NOT(g), 'is_ge': NOT(l), 'is_ne': NOT(e)}[cx.name]
@model('reverse')
def _(cx):
    if 'cmp' in cx.key:
        v = cx.v(0)
        return ITE(ISV(v, 0, 3), mk('adt', ORD, 2), ITE(ISV(v, 1, 3), mk('adt', ORD, 1), mk('adt', ORD, 0)))
    if 'slice' in cx.key:
        pl, v = follow(cx.I, cx.st, cx.args[0])
        if pl is None: return None
        L = LEN(v)
        if L.op != 'int' or L.a[0] > 64: return None
        cx.I.store(cx.st, pl, as_seq(SEQ(*[ONE(index(v, INT(L.a[0] - 1 - j))) for j in range(L.a[0])])))
        return UNIT

# ------------------------------------------------------------------ unbounded integers and fractions (num)
def bigt(t):
    t = strip(t) if t else None
    return bool(t) and t[0] == 'adt' and (t[1].startswith('num_bigint::') or t[1] == 'num_rational::Ratio')
def big_op(cx, op, a, b):
    def f(a, b):
        for z in (a, b):
            if z.op in ('unk', 'undef'): return z
        if a.op == 'ratio' or b.op == 'ratio':
            if a.op != 'ratio': a = mk('ratio', a, INT(1))
            if b.op != 'ratio': b = mk('ratio', b, INT(1))
            if op == 'mul': return mk('ratio', mul(a.a[0], b.a[0]), mul(a.a[1], b.a[1]))
            if op == 'div' and b.a[0].op == 'int' and b.a[0].a[0] > 0: return mk('ratio', mul(a.a[0], b.a[1]), mul(a.a[1], b.a[0]))
            if op == 'add': return mk('ratio', add(mul(a.a[0], b.a[1]), mul(b.a[0], a.a[1])), mul(a.a[1], b.a[1]))
            if op == 'sub': return mk('ratio', sub(mul(a.a[0], b.a[1]), mul(b.a[0], a.a[1])), mul(a.a[1], b.a[1]))
            return UNK('ratio ' + op)
        if a.op == 'call' and a.a[0] == 'rat_num' and b.op == 'call' and b.a[0] == 'rat_den' and a.a[1:3] == b.a[1:3] and op == 'div':
            return div(a.a[1], a.a[2])
        if not (is_int(a) and is_int(b)): return UNK('big ' + op)
        if op in ('add', 'sub', 'mul'): return {'add': add, 'sub': sub, 'mul': mul}[op](a, b)
        if op in ('div', 'rem'): return div(a, b) if op == 'div' else rem(a, b)
        return UNK('big ' + op)
    if op in ('div', 'rem') and is_int(b):
        cx.I.panic(cx.st, EQ0(b), 'divzero', cx.x)
        if cx.st.pc is FALSE: return UNDEF
    t = next((strip(y) for y in cx.targs if bigt(y)), None)
    if op == 'sub' and t and t[1].endswith('BigUint') and is_int(a) and is_int(b):
        cx.I.panic(cx.st, LT(a, b), 'range', cx.x)
        if cx.st.pc is FALSE: return UNDEF
    return LS('big' + op, f, a, b)
def big_conv(cx, v, f, t):
    t = strip(t) if t else None
    if not t or t[0] != 'adt': return None
    if t[1].startswith('num_bigint::') and is_int(v) : return v
    if t[1] == 'num_rational::Ratio': return LS('ratiofrom', lambda x: x if x.op in ('ratio', 'unk', 'undef') else mk('ratio', x, INT(1)), v)
    return None

# ------------------------------------------------------------------ arithmetic traits on integers
def _arith(cx):
    t = tyarg(cx)
    if t and t[0] in ('int', 'bool'):
        op = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem', 'bitand': 'BitAnd', 'bitor': 'BitOr',
              'bitxor': 'BitXor', 'shl': 'Shl', 'shr': 'Shr'}[cx.name]
        return cx.I.binop(op, cx.v(0), cx.v(1), t, cx.st, cx.x)
    if 'ops::' not in cx.key and not (cx.c.get('trait') or '').startswith('core::ops'): return None
    if any(bigt(y) for y in cx.targs): return big_op(cx, cx.name, cx.v(0), cx.v(1))
    if any(strip(y) == DUR for y in cx.targs):
        r = time_op(cx, cx.name)
        if r is not None: return r
    if t and t[0] == 'adt' and (t[1].startswith('time::') or t[1].startswith('sia::types::work')) or t and t[0] == 'adt' and 'rational' in t[1]:
        return uncall(cx, 'op:' + cx.name, cx.v(0), cx.v(1))
    return None
for _n in ('add', 'sub', 'mul', 'div', 'rem', 'bitand', 'bitor', 'bitxor', 'shl', 'shr'): H[_n] = _arith

def _arith_assign(cx):
    t = tyarg(cx)
    pl, v = follow(cx.I, cx.st, cx.args[0])
    if pl is None: return None
    if t and t[0] in ('int', 'bool'):
        op = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem', 'bitand': 'BitAnd', 'bitor': 'BitOr',
              'bitxor': 'BitXor', 'shl': 'Shl', 'shr': 'Shr'}[cx.name[:-7]]
        r = cx.I.binop(op, v, cx.v(1), t, cx.st, cx.x)
        if cx.st.pc is FALSE: return UNDEF
        cx.I.store(cx.st, pl, r)
        return UNIT
    if any(bigt(y) for y in cx.targs):
        r = big_op(cx, cx.name[:-7], v, cx.v(1))
        if r is None: return None
        cx.I.store(cx.st, pl, r)
        return UNIT
    return None
for _n in ('add', 'sub', 'mul', 'div', 'rem', 'bitand', 'bitor', 'bitxor', 'shl', 'shr'): H[_n + '_assign'] = _arith_assign
@model('not')
def _(cx):
    t = tyarg(cx)
    v = cx.v(0)
    if t and t[0] == 'bool': return NOT(v)
    if t and t[0] == 'int' and RANGES[t[1]][0] == 0: return sub(INT(RANGES[t[1]][1]), v)
@model('neg')
def _(cx):
    t = tyarg(cx)
    if t and t[0] == 'int':
        v = cx.v(0)
        cx.I.panic(cx.st, EQ(v, INT(RANGES[t[1]][0])), 'overflow', cx.x)
        return neg(v)

def num_ty(cx):
    k = cx.key.split('{impl#')
    if len(k) > 1:
        n = int(k[1].split('}')[0])
        if n < len(INTN): return INTN[n]
    return None

def num_call(cx):
    t = num_ty(cx)
    if t is None: return None
    n = cx.name
    lo, hi = RANGES[t]; w = WIDTH[t]
    A = lambda i: cx.v(i)
    if n in ('max_value', 'min_value'): return INT(hi if n == 'max_value' else lo)
    base = {'add': add, 'sub': sub, 'mul': mul}
    if '_' in n:
        pre, op = n.split('_', 1)
        if op in base and pre in ('checked', 'wrapping', 'overflowing', 'saturating', 'unchecked', 'strict'):
            r = base[op](A(0), A(1))
            inr = AND(GE(r, INT(lo)), LE(r, INT(hi)))
            if pre == 'checked': return ITE(inr, SOME(r), NONE)
            if pre == 'wrapping': return CAST(t, r)
            if pre == 'overflowing': return mk('tup', CAST(t, r), NOT(inr))
            if pre == 'saturating': return ITE(LT(r, INT(lo)), INT(lo), ITE(GT(r, INT(hi)), INT(hi), r))
            if pre == 'strict':
                cx.I.panic(cx.st, NOT(inr), 'range', cx.x); return r
        if op in ('div', 'rem', 'div_euclid', 'rem_euclid') and lo == 0:
            f = div if op.startswith('div') else rem
            if pre == 'checked':
                z = EQ0(A(1))
                return ITE(z, NONE, SOME(f(A(0), A(1)) if A(1).op == 'int' and A(1).a[0] else mk(f.__name__, A(0), A(1)) if A(1).op != 'int' else INT(0)))
            if pre == 'wrapping':
                cx.I.panic(cx.st, EQ0(A(1)), 'divzero', cx.x)
                return f(A(0), A(1)) if cx.st.pc is not FALSE else UNDEF
        if op == 'pow' and pre == 'checked':
            r = power(A(0), A(1))
            return ITE(LE(r, INT(hi)), SOME(r), NONE)
        if op == 'pow' and pre == 'wrapping': return CAST(t, power(A(0), A(1)))
        if op in ('shl', 'shr') and pre == 'checked':
            s = A(1)
            return ITE(AND(GE(s, INT(0)), LT(s, INT(w))), SOME(CAST(t, shl(A(0), s)) if op == 'shl' else shr(A(0), s)), NONE)
        if op in ('shl', 'shr') and pre == 'wrapping' and A(1).op == 'int':
            s = INT(A(1).a[0] % w)
            return CAST(t, shl(A(0), s)) if op == 'shl' else shr(A(0), s)
    if n in ('div_euclid', 'rem_euclid') and lo == 0:
        cx.I.panic(cx.st, EQ0(A(1)), 'divzero', cx.x)
        if cx.st.pc is FALSE: return UNDEF
        return div(A(0), A(1)) if n == 'div_euclid' else rem(A(0), A(1))
    if n in ('div_euclid', 'rem_euclid') and A(1).op == 'int' and A(1).a[0] > 0:
        c = A(1); m = rem(A(0), c); ng = LT(m, INT(0))
        return ITE(ng, sub(div(A(0), c), INT(1)), div(A(0), c)) if n == 'div_euclid' else ITE(ng, add(m, c), m)
    if n == 'div_ceil' and lo == 0:
        cx.I.panic(cx.st, EQ0(A(1)), 'divzero', cx.x)
        if cx.st.pc is FALSE: return UNDEF
        return div(add(A(0), sub(A(1), INT(1))), A(1))
    if n == 'pow':
        r = power(A(0), A(1))
        if cx.I.profile == 'release': return CAST(t, r)
        cx.I.panic(cx.st, OR(GT(r, INT(hi)), LT(r, INT(lo))), 'overflow', cx.x)
        return r
    if n == 'abs_diff':
        return ITE(LT(A(0), A(1)), sub(A(1), A(0)), sub(A(0), A(1)))
    if n in ('to_be_bytes', 'to_le_bytes', 'to_ne_bytes'):
        v = A(0)
        if lo < 0: v = CAST('u%d' % w, v)
        return BYTES('be' if n == 'to_be_bytes' else 'le', w // 8, v)
    if n in ('from_be_bytes', 'from_le_bytes', 'from_ne_bytes'):
        v = LS('unle', lambda v: UNLE('be' if n == 'from_be_bytes' else 'le', w // 8, v), A(0))
        return CAST(t, v) if lo < 0 else v
    if n in ('to_be', 'from_be', 'swap_bytes'):
        return UNLE('be', w // 8, BYTES('le', w // 8, A(0))) if lo == 0 else None
    if n in ('to_le', 'from_le'): return A(0)
    if n in ('leading_zeros', 'trailing_zeros', 'count_ones', 'count_zeros', 'trailing_ones', 'leading_ones'):
        v = A(0)
        if lo < 0: v = CAST('u%d' % w, v)
        def f(v):
            if v.op == 'int':
                x = v.a[0]
                if n == 'leading_zeros': return INT(w - x.bit_length())
                if n == 'trailing_zeros': return INT((x & -x).bit_length() - 1 if x else w)
                if n == 'count_ones': return INT(bin(x).count('1'))
                if n == 'count_zeros': return INT(w - bin(x).count('1'))
                x = x ^ ((1 << w) - 1)
                if n == 'trailing_ones': return INT((x & -x).bit_length() - 1 if x else w)
                return INT(w - x.bit_length())
            if n == 'trailing_zeros':
                c, t = lin_parts(v)
                lb = lambda z: (z & -z)
                if c and t and all(lb(k) > lb(c) for _, k in t): return INT(lb(c).bit_length() - 1)
            op = {'leading_zeros': 'lz', 'trailing_zeros': 'tz', 'count_ones': 'popcnt'}.get(n)
            if op: return mk(op, v, w)
            if n == 'count_zeros': return sub(INT(w), mk('popcnt', v, w))
            return mk('tz' if n == 'trailing_ones' else 'lz', sub(INT((1 << w) - 1), v), w)
        return LS('bits%s%d' % (n, w), f, v)
    if n == 'ilog2':
        v = A(0)
        cx.I.panic(cx.st, EQ0(v), 'log0', cx.x)
        return sub(INT(w - 1), mk('lz', v, w)) if v.op != 'int' else INT(v.a[0].bit_length() - 1)
    if n == 'is_power_of_two':
        return EQ(mk('popcnt', A(0), w), INT(1)) if A(0).op != 'int' else BOOL(bin(A(0).a[0]).count('1') == 1)
    if n in ('is_ascii_digit',):
        return AND(GE(A(0), INT(48)), LE(A(0), INT(57)))
    if n == 'is_ascii_hexdigit':
        v = A(0)
        f = lambda a, b: AND(GE(v, INT(ord(a))), LE(v, INT(ord(b))))
        return OR(f('0', '9'), OR(f('a', 'f'), f('A', 'F')))
    if n == 'midpoint': return None
    if n == 'from_str_radix': return None
    return None

@model('is_ascii_digit')
def _(cx):
    v = cx.v(0)
    return AND(GE(v, INT(48)), LE(v, INT(57)))
@model('is_ascii_hexdigit')
def _(cx):
    v = cx.v(0)
    f = lambda a, b: AND(GE(v, INT(ord(a))), LE(v, INT(ord(b))))
    return OR(f('0', '9'), OR(f('a', 'f'), f('A', 'F')))

for _t in RANGES:
    pass
def _ac_max(I, targs, c):
    t = num_ty_of_key(c['key'])
    return INT(RANGES[t][1]) if t else None
def _ac_min(I, targs, c):
    t = num_ty_of_key(c['key'])
    return INT(RANGES[t][0]) if t else None
def _ac_bits(I, targs, c):
    t = num_ty_of_key(c['key'])
    return INT(WIDTH[t]) if t else None
def num_ty_of_key(k):
    if '{impl#' in k and 'num' in k:
        n = int(k.split('{impl#')[1].split('}')[0])
        if n < len(INTN): return INTN[n]
    return None
ASSOC_CONST['MAX'] = _ac_max; ASSOC_CONST['MIN'] = _ac_min; ASSOC_CONST['BITS'] = _ac_bits

# ------------------------------------------------------------------ hashing
PARAMS = 'blake2b_simd::Params'
def _blake_new(cx):
    if not cx.key.startswith('blake2b_simd'): return None
    t = strip(cx.rty) if cx.rty else None
    if t and t[0] == 'adt' and t[1].endswith('::State'): return mk('sink', 'hash', (64,), mk('seq'))
    if t and t[0] == 'adt' and t[1].endswith('::Params'): return ADT(PARAMS, 0, INT(64))
    return None

@model('hash_length')
def _(cx):
    pl, v = follow(cx.I, cx.st, cx.args[0])
    if pl is None: return None
    cx.I.store(cx.st, pl, ADT(PARAMS, 0, cx.v(1)))
    return cx.args[0]
@model('to_state')
def _(cx):
    v = cx.v(0)
    n = FLD(v, 0, 0, USIZE)
    if n.op != 'int': return None
    return mk('sink', 'hash', (n.a[0],), mk('seq'))
@model('update')
def _(cx):
    pl, s = follow(cx.I, cx.st, cx.args[0])
    if s.op != 'sink' or pl is None: return None
    cx.I.store(cx.st, pl, mk('sink', s.a[0], s.a[1], CONCAT(s.a[2], cx.seq(1))))
    return cx.args[0]
@model('finalize')
def _(cx):
    s = cx.v(0)
    if s.op == 'ite': return lift('fin', lambda z: hashof(z) if z.op == 'sink' else z if z.op in ('unk', 'undef') else UNK('fin'), s)
    if s.op != 'sink': return None
    return hashof(s)
def hashof(s):
    return as_seq(HB(s.a[1][0], s.a[2]))
@model('hash')
def _(cx):
    if not cx.key.startswith('blake2b_simd'): return None
    v = cx.v(0)
    n = FLD(v, 0, 0, USIZE)
    if n.op != 'int': return None
    return as_seq(HB(n.a[0], cx.seq(1)))
@model('blake2b')
def _(cx):
    return as_seq(HB(64, cx.seq(0)))

# HashManyJob: {params, input, done?}
JOB = 'blake2b_simd::many::HashManyJob'
@model('to_hash')
def _(cx):
    v = cx.v(0)
    def f(v):
        if v.op == 'adt' and v.a[0] == JOB and v.a[4] is TRUE and v.a[2].op == 'int':
            return as_seq(mk('hb', 'blake2b', v.a[2].a[0], as_seq(v.a[3])))
        if v.op == 'idx' or v.op == 'unk': return UNK('job')
        return UNK('to_hash')
    return LS('tohash', f, v)

@model('hash_many')
def _(cx):
    I = cx.I
    a = cx.args[0]
    v = I.rval(cx.st, a)
    if v.op == 'it':
        d = v.a[0]
        if d.op == 'd_mut':
            cell, path, n, ty = d.a
            pl = (cell, path)
            s = I.load(cx.st, pl)
        else: return None
    elif a.op == 'mref':
        pl, s = follow(I, cx.st, a)
    else: return None
    def done(e):
        if e.op == 'adt' and e.a[0] == JOB: return ADT(JOB, 0, e.a[2], e.a[3], TRUE)
        return UNK('job')
    s = as_seq(s)
    if s.op != 'seq': return None
    out = []
    for p in s.a:
        if p.op == 'one': out.append(ONE(done(p.a[0])))
        elif p.op == 'rep': out.append(REP(p.a[0], done(p.a[1])))
        elif p.op == 'map' and p.a[1].op == 'seq' and all(q.op == 'one' for q in p.a[1].a):
            v = fresh_index()
            b = subst(p.a[1], {mk('bv', p.a[2]): v})
            out.append(MAP(p.a[0], v, SEQ(*[ONE(done(q.a[0])) for q in b.a])))
        else: return None
    I.store(cx.st, pl, as_seq(SEQ(*out)))
    return UNIT

# ------------------------------------------------------------------ containers: new etc.
@model('new')
def _(cx):
    k = cx.key
    r = _blake_new(cx)
    if r is not None: return r
    if 'blake2b_simd::many' in k:
        p = cx.v(0)
        return ADT(JOB, 0, FLD(p, 0, 0, USIZE), cx.seq(1), FALSE)
    if k.startswith('alloc::vec') or k.startswith('alloc::string'): return mk('seq')
    if k.startswith('core::fmt'): return fmt_args(cx)
    if k.startswith('core::ops::range'):
        return ADT(RG + 'RangeInclusive', 0, cx.v(0), cx.v(1))
    if k.startswith('alloc::boxed'): return cx.v(0)
    if k.startswith('core::io') or k.startswith('std::io'):
        return None
    return None

@model('with_capacity', 'with_capacity_in')
def _(cx):
    if not cx.key.startswith('alloc::'): return None
    cx.I.allocs.append((cx.v(0), cx.st.pc, cx.x.get('sp'), cx.I.stack[-1][0]))
    return mk('seq')
@model('from_elem')
def _(cx):
    cx.I.allocs.append((cx.v(1), cx.st.pc, cx.x.get('sp'), cx.I.stack[-1][0]))
    return as_seq(SEQ(REP(cx.v(1), cx.v(0))))
@model('reserve', 'reserve_exact', 'shrink_to_fit')
def _(cx):
    if len(cx.args) > 1: cx.I.allocs.append((cx.v(1), cx.st.pc, cx.x.get('sp'), cx.I.stack[-1][0]))
    return UNIT

def vec_op(cx, f):
    pl, v = follow(cx.I, cx.st, cx.args[0])
    if pl is None: return None
    if v.op in ('unk', 'undef'): return UNIT
    cx.I.store(cx.st, pl, f(as_seq(v)) if v.op != 'ite' else lift('vecop%d' % fresh_n(), lambda z: f(as_seq(z)), v))
    return UNIT

@model('push')
def _(cx):
    v = cx.v(1)
    if 'string' in cx.key and rng(v)[1] > 127: return None
    return vec_op(cx, lambda s: CONCAT(s, SEQ(ONE(v))))
@model('push_str', 'extend_from_slice')
def _(cx):
    b = cx.seq(1)
    return vec_op(cx, lambda s: CONCAT(s, b))
@model('append')
def _(cx):
    pl, w = follow(cx.I, cx.st, cx.args[1])
    if pl is None: return None
    r = vec_op(cx, lambda s: CONCAT(s, as_seq(w)))
    cx.I.store(cx.st, pl, mk('seq'))
    return r
@model('clear')
def _(cx): return vec_op(cx, lambda s: mk('seq'))
@model('truncate')
def _(cx):
    n = cx.v(1)
    return vec_op(cx, lambda s: ITE(LT(n, LEN(s)), slice_(s, INT(0), n), s))
@model('resize')
def _(cx):
    n, v = cx.v(1), cx.v(2)
    cx.I.allocs.append((n, cx.st.pc, cx.x.get('sp'), cx.I.stack[-1][0]))
    def f(s):
        if not s.a: return as_seq(SEQ(REP(n, v)))
        return UNK('resize')
    return vec_op(cx, f)
@model('pop')
def _(cx):
    pl, v = follow(cx.I, cx.st, cx.args[0])
    if pl is None or v.op == 'ite': return None
    s = as_seq(v)
    if s.op != 'seq': return None
    if not s.a: return NONE
    L = LEN(s)
    if rng(L)[0] < 1: return None
    last = index(s, sub(L, INT(1)))
    cx.I.store(cx.st, pl, slice_(s, INT(0), sub(L, INT(1))))
    return SOME(last)

@model('len')
def _(cx):
    if not cx.key.startswith(('core::', 'alloc::', 'std::')): return None
    v = cx.v(0)
    if v.op == 'it': return sub(it_len(cx.I, cx.st, v.a[0]), v.a[1])
    return LEN(v)
@model('is_empty')
def _(cx):
    if not cx.key.startswith(('core::', 'alloc::', 'std::')): return None
    v = cx.v(0)
    if v.op == 'adt' and v.a[0] == RG + 'Range': return GE(v.a[2], v.a[3])
    return EQ0(LEN(v))

def elem_ty(t):
    t = strip(t) if t else None
    if not t: return None
    if t[0] in ('array', 'slice'): return strip(t[1])
    if t[0] == 'adt' and t[1] == 'alloc::vec::Vec': return strip(t[2][0])
    if t[0] == 'str' or t[0] == 'adt' and t[1] == 'alloc::string::String': return U8
    return None

def range_bounds(cx, r, L):
    """(start, end, obligations) of a range value over a sequence of length L"""
    if r.op == 'ite': return None
    if r.op != 'adt':
        t = node_ty(r)
        if t and t[0] == 'adt' and t[1] == RG + 'Range':
            return FLD(r, 0, 0, USIZE), FLD(r, 0, 1, USIZE)
        return None
    k = r.a[0]
    if not k.startswith(RG): return None
    k = k[len(RG):]
    if k == 'Range': return r.a[2], r.a[3]
    if k == 'RangeFrom': return r.a[2], L
    if k == 'RangeTo': return INT(0), r.a[2]
    if k == 'RangeFull': return INT(0), L
    if k == 'RangeInclusive': return r.a[2], add(r.a[3], INT(1))
    if k == 'RangeToInclusive': return INT(0), add(r.a[2], INT(1))
    return None

def is_strt(t):
    t = strip(t) if t else None
    return bool(t) and (t[0] == 'str' or t[0] == 'adt' and t[1] == 'alloc::string::String')

@model('index', 'index_mut')
def _(cx):
    if 'ops::index' not in cx.key and not (cx.c.get('trait') or '').startswith('core::ops::index'): return None
    mut = cx.name == 'index_mut'
    I = cx.I
    if mut:
        pl, v = follow(I, cx.st, cx.args[0])
        if pl is None: return None
    else: v = cx.v(0)
    i = cx.v(1)
    L = LEN(v)
    ity = strip(cx.targs[1]) if len(cx.targs) > 1 else None
    et = elem_ty(cx.targs[0])
    if is_int(i) or (ity and ity[0] == 'int'):
        I.panic(cx.st, GE(i, L), 'index', cx.x)
        if cx.st.pc is FALSE: return UNDEF
        if mut: return mk('mref', pl[0], pl[1] + (('x', i, et),))
        return index(v, i, et)
    b = range_bounds(cx, i, L)
    if b is None: return None
    a, e = b
    I.panic(cx.st, OR(GT(a, e), GT(e, L)), 'slice', cx.x)
    if cx.st.pc is FALSE: return UNDEF
    if is_strt(cx.targs[0]):
        for z in (a, e):
            if z is INT(0) or z is L: continue
            I.panic(cx.st, NOT(char_boundary(v, z)), 'charboundary', cx.x)
            if cx.st.pc is FALSE: return UNDEF
    n = sub(e, a)
    if mut: return mk('mref', pl[0], pl[1] + (('r', a, n),))
    return LS('slice%d.%d' % (a.id, n.id), lambda z: slice_(z, a, n), v)

def char_boundary(v, z):
    """z is the start of a character of the text v (or its end)"""
    if v.op == 'ite': return LS('cb%d' % z.id, lambda q: char_boundary(q, z), v)
    if z.op == 'ite': return lift('cbz%d' % v.id, lambda q: char_boundary(v, q), z)
    s = as_seq(v)
    if s.op != 'seq': return bcall('charboundary', v, z)
    if z is INT(0) or ascii_only(s): return TRUE
    n = LEN(s)
    if z is n or after_ascii(s, z, n): return TRUE
    if z.op == 'lin' and z.a[0] == 1 and len(z.a[1]) == 1 and z.a[1][0][1] == 1 and z.a[1][0][0].op == 'call' and z.a[1][0][0].a[0] == 'findch' and z.a[1][0][0].a[1] is s: return TRUE
    b = index(s, z, U8)
    if b.op in ('unk', 'undef'): return bcall('charboundary', v, z)
    return OR(GE(z, n), NOT(AND(GE(b, INT(128)), LT(b, INT(192)))))
def after_ascii(s, z, n):
    """z is the position of the first character outside a set of ASCII characters (or found by its own text)"""
    if z.op == 'call' and z.a[0] in ('findch', 'str:find', 'str:rfind') and z.a[1] is s: return True
    if z.op != 'first' or z.a[0] is not n: return False
    e = index(s, mk('bv', z.a[2]), U8)
    for c in range(128, 256):
        if subst(z.a[1], {e: INT(c)}) is not TRUE: return False
    return True
def ascii_only(s):
    for p in s.a:
        if p.op == 'lit':
            if max(p.a[0]) > 127: return False
        elif p.op == 'sub' and (p.a[0].op == 'hex' or p.a[0].op == 'call' and p.a[0].a[0] in ('dec', 'uint::dec', 'rfc3339', 'b64')): pass
        else: return False
    return True

@model('get')
def _(cx):
    if not cx.key.startswith(('core::slice', 'core::str')): return None
    v = cx.v(0); i = cx.v(1); L = LEN(v)
    if is_int(i):
        return ITE(LT(i, L), SOME(index(v, i, rty_of(cx))), NONE)
    b = range_bounds(cx, i, L)
    if b is None or 'str' in cx.key: return None
    a, e = b
    ok = AND(LE(a, e), LE(e, L))
    return ITE(ok, SOME(slice_(v, a, sub(e, a))), NONE)
@model('first', 'last')
def _(cx):
    if 'slice' not in cx.key: return None
    v = cx.v(0); L = LEN(v)
    if L is INT(0): return NONE
    i = INT(0) if cx.name == 'first' else sub(L, INT(1))
    return ITE(EQ0(L), NONE, SOME(index(v, i, rty_of(cx))))
@model('copy_from_slice', 'clone_from_slice')
def _(cx):
    I = cx.I
    pl, d = follow(I, cx.st, cx.args[0])
    s = cx.seq(1)
    if pl is None: return None
    ok = EQ(LEN(d), LEN(s))
    I.panic(cx.st, NOT(ok), 'copylen', cx.x)
    if cx.st.pc is FALSE: return UNDEF
    I.store(cx.st, pl, s)
    return UNIT
@model('fill')
def _(cx):
    pl, d = follow(cx.I, cx.st, cx.args[0])
    if pl is None: return None
    cx.I.store(cx.st, pl, as_seq(SEQ(REP(LEN(d), cx.v(1)))))
    return UNIT
@model('contains')
def _(cx):
    if 'slice' in cx.key:
        v = cx.v(0); y = cx.v(1)
        i = fresh_index()
        return ANY(LEN(v), i, EQ(index(v, i, rty_of(cx)), y))
    if 'range' in cx.key:
        v = cx.v(0); y = cx.v(1)
        if v.op == 'adt' and v.a[0] == RG + 'RangeInclusive': return AND(GE(y, v.a[2]), LE(y, v.a[3]))
        if v.op == 'adt' and v.a[0] == RG + 'Range': return AND(GE(y, v.a[2]), LT(y, v.a[3]))
    return None
@model('concat')
def _(cx):
    if 'slice' not in cx.key: return None
    v = cx.seq(0)
    if v.op != 'seq': return None
    out = []
    for p in v.a:
        if p.op == 'one': out.append(p.a[0])
        else: return None
    return CONCAT(*out) if out else mk('seq')
@model('starts_with')
def _(cx):
    if not cx.key.startswith(('core::slice', 'core::str')): return None
    q = pat_seq(cx, 1)
    r = strip_pre(cx, cx.seq(0), q)
    if r is not None: return issome(r)
    if q is None or cx.key.startswith('core::str'): return None
    def f(s, q):
        if s.op in ('unk', 'undef'): return s
        if q.op in ('unk', 'undef'): return q
        c = GE(LEN(s), LEN(q))
        return c if c is FALSE else AND(c, EQ(slice_(as_seq(s), INT(0), LEN(q)), as_seq(q)))
    return LS('starts_with', f, cx.seq(0), q)
@model('split_at')
def _(cx):
    v = cx.v(0); n = cx.v(1); L = LEN(v)
    cx.I.panic(cx.st, GT(n, L), 'slice', cx.x)
    if cx.st.pc is FALSE: return UNDEF
    if 'str' in cx.key and not cx.key.startswith('core::slice'):
        cx.I.panic(cx.st, NOT(char_boundary(v, n)), 'charboundary', cx.x)
        if cx.st.pc is FALSE: return UNDEF
    v = as_seq(v) if v.op != 'ite' else v
    return mk('tup', LS('sa%d' % n.id, lambda z: slice_(z, INT(0), n), v), LS('sb%d' % n.id, lambda z: slice_(z, n, sub(LEN(z), n)), v))

# ------------------------------------------------------------------ iterators
def itd(cx, i):
    """descriptor of the iterator argument (consumed prefix skipped)"""
    v = itv(cx, i)
    if v is None or v.op != 'it': return None
    return v.a[0] if v.a[1] is INT(0) else mk('d_skip', v.a[0], v.a[1])

def itv(cx, i):
    v = cx.v(i)
    return to_iter(cx, v, strip(cx.targs[0]) if cx.targs else None, cx.args[i])

def to_iter(cx, v, t, ref=None):
    if v.op == 'it': return v
    if v.op == 'adt' and v.a[0] == RG + 'Range': return mk('it', mk('d_range', v.a[2], v.a[3]), INT(0))
    if v.op == 'adt' and v.a[0] == RG + 'RangeInclusive': return mk('it', mk('d_range', v.a[2], add(v.a[3], INT(1))), INT(0))
    if v.op == 'adt' and v.a[0] == OPT or (t and t[0] == 'adt' and t[1] == OPT):
        return mk('it', mk('d_opt', v), INT(0))
    if v.op == 'seq' or (t and elem_ty(t) is not None):
        return mk('it', mk('d_slice', v, elem_ty(t)), INT(0))
    return None

@model('into_iter', 'iter')
def _(cx):
    if cx.name == 'into_iter':
        t = cx.targs[0]
        if t[0] == 'ref' and t[1] in ('mut', True, 1, 'Mut') and cx.args[0].op == 'mref':
            return mut_iter(cx)
        v = cx.v(0)
        if v.op == 'mref': return None
        r = to_iter(cx, v, strip(t))
        if r is None:
            # an unknown iterator passes through
            return cx.args[0] if strip(t)[0] in ('param', 'unk', 'other', 'proj') else None
        return r
    if not cx.key.startswith(('core::', 'alloc::')): return None
    v = cx.v(0)
    if 'option' in cx.key: return mk('it', mk('d_opt', v), INT(0))
    return mk('it', mk('d_slice', v, rty_of(cx)), INT(0))

def mut_iter(cx):
    pl, v = follow(cx.I, cx.st, cx.args[0])
    if pl is None: return None
    et = elem_ty(cx.targs[0]) if elem_ty(cx.targs[0]) else rty_of(cx)
    n = pl[1][-1][2] if pl[1] and pl[1][-1][0] == 'r' else LEN(v)
    return mk('it', mk('d_mut', pl[0], pl[1], n, et), INT(0))
@model('iter_mut')
def _(cx):
    if not cx.key.startswith(('core::slice', 'alloc::')): return None
    return mut_iter(cx)

@model('bytes')
def _(cx):
    if 'str' not in cx.key: return None
    return mk('it', mk('d_slice', cx.v(0), U8), INT(0))
@model('enumerate')
def _(cx):
    d = itd(cx, 0)
    return None if d is None else mk('it', mk('d_enum', d), INT(0))
@model('rev')
def _(cx):
    d = itd(cx, 0)
    return None if d is None else mk('it', mk('d_rev', d), INT(0))
@model('zip')
def _(cx):
    d = itd(cx, 0)
    if d is None: return None
    t = strip(cx.targs[1]) if len(cx.targs) > 1 else None
    a = cx.v(1)
    e = to_iter(cx, a, t)
    if e is None:
        # the second argument may be a mutable slice reference
        return None
    e = e.a[0] if e.a[1] is INT(0) else mk('d_skip', e.a[0], e.a[1])
    return mk('it', mk('d_zip', d, e), INT(0))
@model('skip')
def _(cx):
    d = itd(cx, 0)
    return None if d is None else mk('it', mk('d_skip', d, cx.v(1)), INT(0))
@model('step_by')
def _(cx):
    d = itd(cx, 0)
    if d is None: return None
    k = cx.v(1)
    cx.I.panic(cx.st, EQ0(k), 'stepby0', cx.x)
    if k.op != 'int': return None
    return mk('it', mk('d_step', d, k), INT(0))
@model('chain')
def _(cx):
    d = itd(cx, 0)
    if d is None: return None
    e = to_iter(cx, cx.v(1), strip(cx.targs[1]) if len(cx.targs) > 1 else None)
    if e is None or e.a[1] is not INT(0): return None
    return mk('it', mk('d_chain', d, e.a[0]), INT(0))
@model('filter')
def _(cx):
    if is_opt(cx):
        g, val, e, v = self_inner(cx)
        return cases(cx, g, lambda s: ITE(cx.I.cond(cx.I.apply(cx.args[1], [val], s, cx.x), s), SOME(val), NONE), lambda s: NONE)
    d = itd(cx, 0)
    return None if d is None else mk('it', mk('d_filter', d, cx.I.rval(cx.st, cx.args[1])), INT(0))
@model('chunks', 'chunks_exact', 'windows')
def _(cx):
    if 'slice' not in cx.key: return None
    v = cx.v(0); k = cx.v(1)
    cx.I.panic(cx.st, EQ0(k), 'chunk0', cx.x)
    return mk('it', mk('d_' + cx.name, v, k), INT(0))
@model('chunks_mut', 'chunks_exact_mut', 'par_chunks_mut', 'par_chunks_exact_mut')
def _(cx):
    pl, v = follow(cx.I, cx.st, cx.args[0])
    if pl is None: return None
    k = cx.v(1)
    cx.I.panic(cx.st, EQ0(k), 'chunk0', cx.x)
    L = LEN(v)
    if k.op != 'int' : return None
    n = div(L, k) if 'exact' in cx.name else div(add(L, sub(k, INT(1))), k)
    return mk('it', mk('d_mutchunks', pl[0], pl[1], n, k, L), INT(0))

def it_len(I, st, d):
    op = d.op
    if op == 'd_slice': return LEN(d.a[0])
    if op == 'd_range': 
        n = sub(d.a[1], d.a[0])
        return n if rng(n)[0] >= 0 else ITE(GE(n, INT(0)), n, INT(0))
    if op == 'd_mut': return d.a[2]
    if op == 'd_mutchunks': return d.a[2]
    if op in ('d_enum', 'd_rev', 'd_map', 'd_filter'): return it_len(I, st, d.a[0])
    if op == 'd_skip':
        n = sub(it_len(I, st, d.a[0]), d.a[1])
        return n if rng(n)[0] >= 0 else ITE(GE(n, INT(0)), n, INT(0))
    if op == 'd_take':
        n = it_len(I, st, d.a[0])
        return ITE(LT(d.a[1], n), d.a[1], n)
    if op == 'd_zip':
        n, m = it_len(I, st, d.a[0]), it_len(I, st, d.a[1])
        return n if n is m else ITE(LT(m, n), m, n)
    if op == 'd_step':
        n = it_len(I, st, d.a[0])
        return div(add(n, sub(d.a[1], INT(1))), d.a[1])
    if op == 'd_opt': return ITE(issome(d.a[0]), INT(1), INT(0))
    if op == 'd_chunks_exact': return div(LEN(d.a[0]), d.a[1])
    if op == 'd_chunks': return div(add(LEN(d.a[0]), sub(d.a[1], INT(1))), d.a[1])
    if op == 'd_windows':
        n = add(sub(LEN(d.a[0]), d.a[1]), INT(1))
        return n if rng(n)[0] >= 0 else ITE(GE(n, INT(0)), n, INT(0))
    if op == 'd_chain': return add(it_len(I, st, d.a[0]), it_len(I, st, d.a[1]))
    return UNK('it_len ' + op)

def it_item(cx, st, d, i):
    """(value, guard): guard FALSE means the element is filtered out"""
    I = cx.I
    op = d.op
    if op == 'd_slice': return index(d.a[0] if d.a[0].op in ('ite', 'seq') else as_seq(d.a[0]), i, d.a[1]), TRUE
    if op == 'd_range': return add(d.a[0], i), TRUE
    if op == 'd_mut': return mk('mref', d.a[0], d.a[1] + (('x', i, d.a[3]),)), TRUE
    if op == 'd_mutchunks':
        cell, path, n, k, L = d.a
        w = k
        off = mul(i, k)
        rem_ = sub(L, off)
        if not (rng(sub(rem_, k))[0] >= 0 or rem(L, k) is INT(0)): w = ITE(LT(rem_, k), rem_, k)
        return mk('mref', cell, path + (('r', off, w),)), TRUE
    if op == 'd_enum':
        v, g = it_item(cx, st, d.a[0], i)
        if g is not TRUE: return UNK('enumerate of filter'), TRUE
        return mk('tup', i, v), TRUE
    if op == 'd_rev':
        n = it_len(I, st, d.a[0])
        return it_item(cx, st, d.a[0], sub(sub(n, INT(1)), i))
    if op == 'd_map':
        v, g = it_item(cx, st, d.a[0], i)
        if g is not TRUE:
            s = st.fork(g)
            r = I.apply(d.a[1], [v], s, cx.x)
            return r, g
        r = I.apply(d.a[1], [v], st, cx.x)
        return r, TRUE
    if op == 'd_filter':
        v, g = it_item(cx, st, d.a[0], i)
        c = I.apply(d.a[1], [v], st, cx.x)
        return v, AND(g, I.cond(c, st))
    if op == 'd_skip': return it_item(cx, st, d.a[0], add(i, d.a[1]))
    if op == 'd_take': return it_item(cx, st, d.a[0], i)
    if op == 'd_step': return it_item(cx, st, d.a[0], mul(i, d.a[1]))
    if op == 'd_zip':
        v, g = it_item(cx, st, d.a[0], i)
        w, h = it_item(cx, st, d.a[1], i)
        if g is not TRUE or h is not TRUE: return UNK('zip of filter'), TRUE
        return mk('tup', v, w), TRUE
    if op == 'd_opt': return somev(d.a[0], None), TRUE
    if op == 'd_chunks_exact': return slice_(as_seq(d.a[0]), mul(i, d.a[1]), d.a[1]), TRUE
    if op == 'd_windows': return slice_(as_seq(d.a[0]), i, d.a[1]), TRUE
    if op == 'd_chunks':
        L = LEN(d.a[0]); off = mul(i, d.a[1]); r = sub(L, off)
        w = d.a[1]
        if not (rem(L, d.a[1]) is INT(0)): w = ITE(LT(r, d.a[1]), r, d.a[1])
        if w.op == 'ite': return UNK('chunks'), TRUE
        return slice_(as_seq(d.a[0]), off, w), TRUE
    if op == 'd_chain':
        n = it_len(I, st, d.a[0])
        c = I.cond(LT(i, n), st)
        if c is TRUE: return it_item(cx, st, d.a[0], i)
        if c is FALSE: return it_item(cx, st, d.a[1], sub(i, n))
        return UNK('chain'), TRUE
    return UNK('item ' + op), TRUE

@model('next')
def _(cx):
    I = cx.I
    if cx.args[0].op != 'mref': return None
    pl, v = follow(I, cx.st, cx.args[0])
    if pl is None: return None
    it = to_iter(cx, v, strip(cx.targs[0]) if cx.targs else None)
    if it is None: return None
    return it_next(cx, cx.st, pl, it)

def it_next(cx, st, pl, it):
    I = cx.I
    d, pos = it.a
    if d.op == 'd_slice' and pos is INT(0) and any(p.op == 'alt' for p in as_seq(d.a[0]).a):
        # optional elements: take the head by its alternatives
        s = resolve_alt(I, st, d.a[0])
        if s.op == 'seq' and s.a and (s.a[0].op in ('one', 'lit') or s.a[0].op == 'sub' and s.a[0].a[2] is INT(1)):
            v = index(s, INT(0), d.a[1])
            I.store(st, pl, mk('it', mk('d_slice', slice_(s, INT(1), sub(LEN(s), INT(1))) if s.a[0].op == 'lit' else as_seq(SEQ(*s.a[1:])), *d.a[1:]), INT(0)))
            return SOME(v)
        if s.op == 'seq' and not s.a: return NONE
    n = it_len(I, st, d)
    c = I.cond(LT(pos, n), st)
    I.store(st, pl, mk('it', d, add(pos, INT(1))))
    if c is FALSE: return NONE
    # the element is only evaluated when there is one
    s = st.fork(c)
    if s.pc is FALSE: return NONE
    v, g = it_item(cx, s, d, pos)
    if c is TRUE:
        st.pc = s.pc; st.mem = s.mem
    elif s.mem != st.mem or s.pc is not AND(st.pc, c):
        rest = st.fork(NOT(c))
        p, _, m = I.merge2(c, s, UNIT, rest, UNIT)
        st.pc = p; st.mem = m
    if st.pc is FALSE: return UNDEF
    if g is not TRUE:
        if not I.ctls: return UNK('filtered next')
        bad = AND(c, NOT(g))
        I.ctls[-1].conts.append((AND(st.pc, bad), UNIT, dict(st.mem)))
        st.pc = AND(st.pc, NOT(bad))
        if st.pc is FALSE: return UNDEF
    return ITE(c, SOME(v), NONE)

class _FakeFrame:
    def __init__(self): self.exits = []

def drive(cx, itval, step):
    """run step(state, item, ctl) for each element"""
    I = cx.I
    from interp import Ctl
    st = cx.st
    cell = I.alloc(st, itval)
    ctl = Ctl()
    ref = (cell, ())
    def body(s):
        it = I.load(s, ref)
        if it.op != 'it':
            ctl.breaks.append((s.pc, UNIT, dict(s.mem)))
            s.pc = FALSE
            return
        r = it_next(cx, s, ref, it)
        if s.pc is FALSE: return
        c = I.cond(issome(r), s)
        if c is not TRUE:
            ctl.breaks.append((AND(s.pc, NOT(c)), UNIT, dict(s.mem)))
            s.pc = AND(s.pc, c)
        if s.pc is FALSE: return
        step(s, somev(r, None), ctl)
    I.loop(st, body, ctl, _FakeFrame())

def mutchunks_of(d):
    if d.op == 'd_mutchunks': return [d]
    if d.op in ('d_enum',): return mutchunks_of(d.a[0])
    if d.op == 'd_zip': return mutchunks_of(d.a[0]) + mutchunks_of(d.a[1])
    return []

def over(x, et, f):
    """f(element) for each element of a sequence"""
    if x.op == 'seq' and all(p.op in ('one', 'lit') for p in x.a) and LEN(x).a[0] <= 512:
        return CONCAT(*[as_seq(f(e)) for p in x.a for e in ([p.a[0]] if p.op == 'one' else [INT(y) for y in p.a[0]])])
    i = fresh_index()
    return as_seq(SEQ(MAP(LEN(x), i, f(index(x, i, et)))))

def block_of(vec, i, k):
    """elements i*k .. i*k + k of a sequence"""
    if vec.op == 'seq' and len(vec.a) == 1 and vec.a[0].op == 'map':
        p = vec.a[0]; b = p.a[1]; w = LEN(b) if b.op == 'seq' else UNK('w')
        if w.op == 'int' and w.a[0] and k.a[0] % w.a[0] == 0 and k.a[0] // w.a[0] <= 4096:
            m = k.a[0] // w.a[0]
            return as_seq(CONCAT(*[subst(b, {mk('bv', p.a[2]): add(scale(i, m), INT(j))}) for j in range(m)]))
    return slice_(vec, mul(i, k), k)

def disjoint(cx, itval, step):
    """for_each over the disjoint mutable blocks of one array: the body once, on block i"""
    I = cx.I; st = cx.st
    if itval.op != 'it' or itval.a[1] is not INT(0): return False
    d = itval.a[0]
    ms = mutchunks_of(d)
    if len(ms) != 1: return False
    cell, path, n, k, L = ms[0].a
    if rem(L, k) is not INT(0) or it_len(I, st, d) is not n: return False
    vec = I.load(st, (cell, path))
    if vec.op not in ('seq', 'sym', 'fld', 'idx'): return False
    i = fresh_index()
    nob = len(I.obl)
    s = st.fork(TRUE)
    s.pc = AND(s.pc, LT(i, n))
    c2 = I.alloc(s, block_of(as_seq(vec), i, k))
    ref = mk('mref', c2, ())
    def item(d):
        if d.op == 'd_mutchunks': return ref
        if d.op == 'd_enum': return mk('tup', i, item(d.a[0]))
        if d.op == 'd_zip': return mk('tup', item(d.a[0]), item(d.a[1]))
        return it_item(cx, s, d, i)[0]
    from interp import Ctl
    before = s.pc; ctl = Ctl(); known = dict(s.mem)
    I.ctls.append(ctl)
    try: step(s, item(d), ctl)
    finally: I.ctls.pop()
    if s.pc is FALSE and not ctl.breaks and not ctl.conts:
        # every block panics
        st.pc = AND(st.pc, EQ0(n))
        return True
    new = I.load(s, (c2, ()))
    same = all(s.mem.get(c) is v for c, v in known.items() if c != c2)
    import os
    if os.environ.get('VERIF_DEBUG'): print('disjoint', s.pc is before, len(ctl.breaks), len(ctl.conts), same, show(new)[:600], show(s.pc)[:300])
    dies = FALSE
    if s.pc is not before and not ctl.breaks and not ctl.conts:
        dies = ANY(n, i, AND(before, NOT(s.pc)))
        if not has_unk(dies): before = s.pc
    if s.pc is not before or ctl.breaks or ctl.conts or not same or new.op != 'seq' or LEN(new) is not k:
        del I.obl[nob:]
        return False
    st.pc = AND(st.pc, NOT(dies))
    I.store(st, (cell, path), as_seq(SEQ(MAP(n, i, new))))
    return True

def stop(s, ctl, c=TRUE):
    p = AND(s.pc, c)
    if p is not FALSE: ctl.breaks.append((p, UNIT, dict(s.mem)))
    s.pc = AND(s.pc, NOT(c)) if c is not TRUE else FALSE

@model('for_each')
def _(cx):
    it = itv(cx, 0)
    if it is None: return None
    step = lambda s, v, ctl: cx.I.apply(cx.args[1], [v], s, cx.x)
    if not disjoint(cx, it, step): drive(cx, it, step)
    return UNIT if cx.st.pc is not FALSE else UNDEF

@model('try_for_each')
def _(cx):
    it = itv(cx, 0)
    if it is None: return None
    I = cx.I
    res = I.alloc(cx.st, OK(UNIT))
    def step(s, v, ctl):
        r = I.apply(cx.args[1], [v], s, cx.x)
        if s.pc is FALSE: return
        bad = I.cond(NOT(isok(r)), s)
        if bad is FALSE: return
        s2 = s.fork(bad)
        I.store(s2, (res, ()), r)
        if s2.pc is not FALSE: ctl.breaks.append((s2.pc, UNIT, s2.mem))
        s.pc = AND(s.pc, NOT(bad))
    drive(cx, it, step)
    return I.load(cx.st, (res, ())) if cx.st.pc is not FALSE else UNDEF

@model('fold')
def _(cx):
    it = itv(cx, 0)
    I = cx.I
    if it is None:
        return None
    acc = I.alloc(cx.st, cx.v(1), strip(cx.targs[1]) if len(cx.targs) > 1 else None)
    def step(s, v, ctl):
        a = I.load(s, (acc, ()))
        r = I.apply(cx.args[2], [a, v], s, cx.x)
        if s.pc is not FALSE: I.store(s, (acc, ()), r)
    drive(cx, it, step)
    return I.load(cx.st, (acc, ())) if cx.st.pc is not FALSE else UNDEF

@model('sum')
def _(cx):
    it = itv(cx, 0)
    if it is None: return None
    I = cx.I
    t = strip(cx.rty) if cx.rty else None
    if not is_int_t(t): return None
    acc = I.alloc(cx.st, INT(0), t)
    def step(s, v, ctl):
        v = I.rval(s, v)
        r = I.binop('Add', I.load(s, (acc, ())), v, t, s, cx.x)
        if s.pc is not FALSE: I.store(s, (acc, ()), r)
    drive(cx, it, step)
    return I.load(cx.st, (acc, ())) if cx.st.pc is not FALSE else UNDEF

@model('count')
def _(cx):
    it = itv(cx, 0)
    if it is None: return None
    I = cx.I
    acc = I.alloc(cx.st, INT(0), USIZE)
    def step(s, v, ctl):
        I.store(s, (acc, ()), add(I.load(s, (acc, ())), INT(1)))
    drive(cx, it, step)
    return I.load(cx.st, (acc, ())) if cx.st.pc is not FALSE else UNDEF

@model('position')
def _(cx): return search(cx, lambda i, v: SOME(i))
@model('find')
def _(cx):
    if 'str' in cx.key and 'iter' not in cx.key: return str_find(cx)
    return search(cx, lambda i, v: SOME(v))
@model('any')
def _(cx):
    r = search(cx, lambda i, v: SOME(UNIT))
    return None if r is None else issome(r)
@model('all')
def _(cx):
    r = search(cx, lambda i, v: SOME(UNIT), neg=True)
    return None if r is None else NOT(issome(r))

def search(cx, mkres, neg=False):
    pl = None
    if cx.args[0].op == 'mref':
        pl, v0 = follow(cx.I, cx.st, cx.args[0])
    it = itv(cx, 0)
    if it is None: return None
    I = cx.I
    idx = I.alloc(cx.st, INT(0), USIZE)
    res = I.alloc(cx.st, NONE)
    def step(s, v, ctl):
        i = I.load(s, (idx, ()))
        c = I.apply(cx.args[1], [v], s, cx.x)
        if s.pc is FALSE: return
        c = I.cond(c, s)
        if neg: c = NOT(c)
        s2 = s.fork(c)
        if s2.pc is not FALSE:
            I.store(s2, (res, ()), mkres(i, v))
            ctl.breaks.append((s2.pc, UNIT, s2.mem))
        s.pc = AND(s.pc, NOT(c))
        I.store(s, (idx, ()), add(i, INT(1)))
    drive(cx, it, step)
    if cx.st.pc is FALSE: return UNDEF
    r = I.load(cx.st, (res, ()))
    if pl is not None and v0.op == 'it':
        # what was looked at is consumed
        n = I.load(cx.st, (idx, ()))
        I.store(cx.st, pl, mk('it', v0.a[0], add(v0.a[1], LS('consumed%d' % r.id, lambda n: ITE(issome(r), add(n, INT(1)), n), n))))
    return r

@model('collect')
def _(cx):
    it = itv(cx, 0)
    if it is None: return None
    return collect_into(cx, it, strip(cx.rty) if cx.rty else None)
@model('from_iter')
def _(cx):
    it = to_iter(cx, cx.v(0), strip(cx.targs[2]) if len(cx.targs) > 2 else None)
    if it is None: return None
    return collect_into(cx, it, strip(cx.targs[0]))
@model('extend')
def _(cx):
    it = to_iter(cx, cx.v(1), strip(cx.targs[2]) if len(cx.targs) > 2 else None)
    pl, v = follow(cx.I, cx.st, cx.args[0])
    if it is None or pl is None: return None
    r = collect_into(cx, it, ('adt', 'alloc::vec::Vec', (('unk',),)))
    if r is None or cx.st.pc is FALSE: return r
    pl, v = follow(cx.I, cx.st, cx.args[0])
    cx.I.store(cx.st, pl, CONCAT(as_seq(v), r))
    return UNIT

def collect_into(cx, it, t):
    I = cx.I
    if t is None or t[0] != 'adt': return None
    if t[1] == 'alloc::vec::Vec':
        n = it_len(I, cx.st, it.a[0]) if it.op == 'it' else UNK('length')
        if n.op not in ('unk', 'undef'): I.allocs.append((n, cx.st.pc, cx.x.get('sp') if cx.x else None, I.stack[-1][0]))
        acc = I.alloc(cx.st, mk('seq'))
        def step(s, v, ctl):
            I.store(s, (acc, ()), CONCAT(I.load(s, (acc, ())), SEQ(ONE(I.rval(s, v)))))
        drive(cx, it, step)
        return I.load(cx.st, (acc, ())) if cx.st.pc is not FALSE else UNDEF
    if t[1] in (RES, OPT):
        tt = strip(t[2][0])
        if tt[0] != 'adt' or tt[1] != 'alloc::vec::Vec': return None
        acc = I.alloc(cx.st, mk('seq'))
        res = I.alloc(cx.st, OK(UNIT) if t[1] == RES else SOME(UNIT))
        good = isok if t[1] == RES else issome
        def step(s, v, ctl):
            g = I.cond(good(v), s)
            bad = NOT(g)
            if bad is not FALSE:
                s2 = s.fork(bad)
                I.store(s2, (res, ()), ERR(errv(v)) if t[1] == RES else NONE)
                if s2.pc is not FALSE: ctl.breaks.append((s2.pc, UNIT, s2.mem))
                s.pc = AND(s.pc, g)
            if s.pc is FALSE: return
            I.store(s, (acc, ()), CONCAT(I.load(s, (acc, ())), SEQ(ONE(FLD(v, 0 if t[1] == RES else 1, 0, None)))))
        drive(cx, it, step)
        if cx.st.pc is FALSE: return UNDEF
        r = I.load(cx.st, (res, ())); a = I.load(cx.st, (acc, ()))
        return ITE(good(r), OK(a) if t[1] == RES else SOME(a), ERR(errv(r)) if t[1] == RES else NONE)
    return None

# ------------------------------------------------------------------ strings
def pat_seq(cx, i):
    v = cx.v(i)
    t = strip(cx.targs[0]) if cx.targs else None
    if v.op == 'int': return as_seq(SEQ(LIT(tuple(chr(v.a[0]).encode()))))
    if v.op == 'clo' or v.op == 'fnv': return None
    return as_seq(v) if v.op != 'ite' else v

def strip_pre(cx, s, p):
    """Option<rest> of s.strip_prefix(p)"""
    if p is None or p.op != 'seq' or s.op != 'seq': return None
    if not is_const_seq(p): return None
    k = const_len(p)
    if k == 0: return SOME(s)
    want = [v for q in p.a for v in q.a[0]]
    if is_const_seq(s) :
        have = [v for q in s.a for v in q.a[0]]
        return SOME(as_seq(SEQ(LIT(have[k:])))) if have[:k] == want else NONE
    if s.a and s.a[0].op == 'lit':
        have = list(s.a[0].a[0])
        m = min(len(have), k)
        if have[:m] != want[:m]: return NONE
        if m == k: return SOME(as_seq(SEQ(LIT(have[k:]), *s.a[1:])))
    L = LEN(s)
    c1 = GE(L, INT(k))
    if c1 is FALSE: return NONE
    h = slice_(s, INT(0), INT(k))
    return ITE(AND(c1, EQ(h, p)), SOME(slice_(s, INT(k), sub(L, INT(k)))), NONE)

@model('strip_prefix')
def _(cx):
    return strip_pre(cx, cx.seq(0), pat_seq(cx, 1))
def nochar(p, ch):
    """piece certainly does not contain the byte ch"""
    if p.op == 'lit': return ch not in p.a[0]
    if p.op == 'sub' and p.a[0].op == 'hex': return chr(ch) not in '0123456789abcdef'
    if p.op == 'sub' and p.a[0].op == 'call' and p.a[0].a[0] in ('dec', 'uint::dec'): return chr(ch) not in '0123456789-'
    if p.op == 'enc' and p.a[0] == 'display': return False
    return False

def find_char(s, ch):
    """('at', prefix pieces, suffix pieces) / ('none',) / None"""
    if s.op != 'seq': return None
    for j, p in enumerate(s.a):
        if p.op == 'lit' and ch in p.a[0]:
            k = p.a[0].index(ch)
            return ('at', as_seq(SEQ(*s.a[:j], LIT(p.a[0][:k]))), as_seq(SEQ(LIT(p.a[0][k + 1:]), *s.a[j + 1:])))
        if not nochar(p, ch): return None
    return ('none',)

@model('split_once')
def _(cx):
    s = cx.seq(0); p = pat_seq(cx, 1)
    if p is None or not is_const_seq(p) or const_len(p) != 1: return None
    ch = p.a[0].a[0][0]
    r = find_char(s, ch)
    if r and r[0] == 'at': return SOME(mk('tup', r[1], r[2]))
    if r: return NONE
    pos = mk('call', 'findch', s, INT(ch), USIZE)
    c = bcall('hasch', s, INT(ch))
    L = LEN(s)
    return ITE(c, SOME(mk('tup', substr(s, INT(0), pos), substr(s, add(pos, INT(1)), sub(sub(L, pos), INT(1))))), NONE)

def substr(s, off, n):
    s = as_seq(s)
    if len(s.a) == 1 and s.a[0].op == 'sub': return as_seq(SEQ(SUB(s.a[0].a[0], add(s.a[0].a[1], off), n)))
    return as_seq(SEQ(SUB(mk('arr', s), off, n)))

def str_find(cx):
    s = cx.seq(0)
    v = cx.v(1)
    if v.op in ('clo', 'fnv'):
        # first character satisfying the predicate; bytes are looked at when it treats all characters beyond ASCII alike
        n = LEN(s)
        i = fresh_index()
        el = index(s, i, U8)
        s2 = cx.st.fork(TRUE)
        c = cx.I.cond(cx.I.apply(v, [el], s2, cx.x), s2)
        if c.op in ('unk', 'undef'): return c
        if not ascii_only(s) and subst(c, {el: add(SYM('hi!', ('int', 'u32')), INT(128))}).op != 'bool':
            cs = strmodel.fn('chars', strmodel.VCHAR, s)
            if cs.op in ('unk', 'undef'): return cs
            n = LEN(cs); el = index(cs, i, ('char',))
            s2 = cx.st.fork(TRUE)
            c = cx.I.cond(cx.I.apply(v, [el], s2, cx.x), s2)
            if c.op in ('unk', 'undef'): return c
            f = FIRST(n, lambda z: subst(c, {i: z}))
            return ITE(LT(f, n), SOME(strmodel.fn('charoff', USIZE, s, f)), NONE)
        f = FIRST(n, lambda z: subst(c, {i: z}))
        return ITE(LT(f, n), SOME(f), NONE)
    return None

@model('from_utf8', 'from_utf8_lossy')
def _(cx):
    s = cx.seq(0)
    if cx.name.endswith('lossy'):
        if s.op == 'seq' and valid_utf8(s): return s
        return strmodel.fn('lossy', STR, s)
    if s.op == 'seq' and valid_utf8(s): return OK(s)
    return ITE(bcall('utf8', s), OK(s), ERR(mk('call', 'utf8err', s, ('unk',))))
def valid_utf8(s):
    if ascii_only(s): return True
    if len(s.a) == 1 and s.a[0].op == 'sub':
        b = s.a[0]
        t = node_ty(b.a[0])
        if is_strt(t) and b.a[1] is INT(0) and b.a[2] is base_len(b.a[0]): return True
    t = node_ty(s)
    return False

def rfc3339_arg(cx, i):
    t = strip(cx.targs[-1]) if cx.targs else None
    return bool(t) and t[0] == 'adt' and t[1].endswith('::Rfc3339')
@model('parse')
def _(cx):
    if cx.key.startswith('time::'):
        import serde_model
        return serde_model.parse3339(cx.v(0)) if rfc3339_arg(cx, 1) else None
    if 'str' in cx.key and 'iter' not in cx.key and cx.key.startswith('core::str'):
        t = strip(cx.targs[0])
        return parse_as(cx, cx.seq(0), t)
    if cx.key.startswith('time::'):
        return uncall(cx, 'time:parse', cx.v(0), cx.v(1))
def parse_as(cx, s, t):
    I = cx.I
    im = I.find_impl('core::str::traits::FromStr', (t,))
    if im:
        for n, k, _ in im[0]['items']:
            if n == 'from_str' and k in I.P.bodies and k not in OPAQUE:
                return I.call_local(k, [s], cx.st, dict(im[1]), None, cx.x)
            if n == 'from_str': return mk('call', 'uint::from_str', s, ('adt', RES, (t, ('unk',))))
    if is_int_t(t):
        if s.op == 'seq' and len(s.a) == 1 and s.a[0].op == 'sub' and s.a[0].a[0].op == 'call' and s.a[0].a[0].a[0] == 'dec':
            return OK(s.a[0].a[0].a[1])
        return ITE(bcall('isdec:' + t[1], s), OK(mk('call', 'undec', s, t)), ERR(mk('call', 'parseint', s, ('unk',))))
    if t == ('float', 'f64'): return ITE(bcall('isf64', s), OK(mk('call', 'flt:parse', s, t)), ERR(mk('call', 'parsefloat', s, ('unk',))))
    return None
OLDF = {k: H[k] for k in ('round', 'floor', 'ceil', 'trunc', 'abs', 'powi', 'is_nan', 'is_finite', 'is_sign_negative') if k in H}
@model('round', 'floor', 'ceil', 'trunc', 'abs', 'powi', 'is_nan', 'is_finite', 'is_sign_negative')
def _(cx):
    if '::f64::' not in cx.key: return OLDF[cx.name](cx) if cx.name in OLDF else None
    a = cx.v(0)
    if a.op in ('unk', 'undef'): return a
    if cx.name[:3] == 'is_': return bcall('flt:' + cx.name, a)
    if cx.name == 'powi':
        b = cx.v(1)
        return b if b.op in ('unk', 'undef') else mk('call', 'flt:powi', a, b, ('float', 'f64'))
    return mk('call', 'flt:' + cx.name, a, ('float', 'f64'))
@model('from_str')
def _(cx):
    if cx.key.startswith('core::fmt'):
        return ADT('fmt::Arguments', 0, cx.seq(0))
    if cx.c.get('trait', '').endswith('FromStr'):
        return parse_as(cx, cx.seq(0), strip(cx.targs[0]))
    return None

# ------------------------------------------------------------------ formatting
def dec(v):
    return as_seq(mk('call', 'dec', v, STR)) if v.op != 'ite' else lift('dec', lambda z: dec(z), v) if False else as_seq(mk('call', 'dec', v, STR))

def render(cx, t, v, trait='core::fmt::Display'):
    """bytes written by formatting v"""
    I = cx.I
    t0 = strip(t) if t else None
    if v.op == 'adt' and v.a[0] == 'fmt::Arguments': return v.a[2]
    if t0 is None: return as_seq(mk('call', 'display', v, STR))
    if trait.endswith('Display'):
        if is_strt(t0): return v if v.op == 'ite' else as_seq(v)
        if t0[0] == 'int': return dec(v)
        if t0[0] == 'char' and rng(v)[1] < 128: return as_seq(SEQ(ONE(v)))
    im = I.find_impl(trait, (t0,))
    if im and not (im[0].get('derived') and trait.endswith('Debug')):
        for n, k, _ in im[0]['items']:
            if n == 'fmt' and k in I.P.bodies and k not in OPAQUE:
                cell = I.alloc(cx.st, mk('sink', 'fmt', (), mk('seq')))
                I.call_local(k, [v, mk('mref', cell, ())], cx.st, dict(im[1]), None, cx.x)
                if cx.st.pc is FALSE: return mk('seq')
                s = I.load(cx.st, (cell, ()))
                return s.a[2] if s.op == 'sink' else UNK('fmt')
    if trait.endswith('Display') and t0 == ('adt', 'sia::types::work::Work', ()): return LS('u256show', lambda z: as_seq(mk('call', 'uint::dec', z, STR)), v)
    return as_seq(mk('call', trait.rsplit('::', 1)[1], v, STR))

@model('new_display', 'new_debug', 'new_lower_hex', 'new_upper_hex')
def _(cx):
    tr = {'new_display': 'core::fmt::Display', 'new_debug': 'core::fmt::Debug', 'new_lower_hex': 'core::fmt::LowerHex', 'new_upper_hex': 'core::fmt::UpperHex'}[cx.name]
    v = cx.v(0); t = strip(cx.targs[0])
    w = mk('seq', mk('one', v))
    if tr.endswith('Hex') and t[0] == 'int': return ADT('fmtarg:' + tr + ':' + t[1], 0, v)
    return ADT('fmtarg', 0, render(cx, t, v, tr))

def fmt_args(cx):
    tpl = cx.seq(0); args = cx.seq(1)
    if not is_const_seq(tpl): return None
    b = bytes(v for p in tpl.a for v in p.a[0])
    out = []; i = 0; k = 0
    def arg(j):
        a = index(args, INT(j))
        return a
    while i < len(b):
        n = b[i]; i += 1
        if n == 0: break
        if n < 0x80: out.append(SEQ(LIT(tuple(b[i:i + n])))); i += n; continue
        if n == 0x80:
            l = int.from_bytes(b[i:i + 2], 'little'); i += 2
            out.append(SEQ(LIT(tuple(b[i:i + l])))); i += l; continue
        flags = width = prec = None; idx = k
        if n & 1: flags = int.from_bytes(b[i:i + 4], 'little'); i += 4
        if n & 2: width = int.from_bytes(b[i:i + 2], 'little'); i += 2
        if n & 4: prec = int.from_bytes(b[i:i + 2], 'little'); i += 2
        if n & 8: idx = int.from_bytes(b[i:i + 2], 'little'); i += 2
        k = idx + 1
        a = arg(idx)
        if a.op != 'adt': return UNK('format argument')
        if a.a[0] == 'fmtarg' and n & 0x37 == 0: out.append(a.a[2]); continue
        if a.a[0] == 'fmtarg:core::fmt::LowerHex:u8' and width == 2 and flags is not None and flags & (1 << 24):
            out.append(as_seq(mk('hex', as_seq(SEQ(ONE(a.a[2])))))); continue
        out.append(as_seq(mk('call', 'fmt:%s:%s:%s' % (flags, width, prec), a.a[2], STR)))
    return ADT('fmt::Arguments', 0, CONCAT(*out) if out else mk('seq'))

@model('write_fmt')
def _(cx):
    pl, s = follow(cx.I, cx.st, cx.args[0])
    a = cx.v(1)
    if a.op != 'adt' or pl is None: return None
    if s.op == 'sink':
        cx.I.store(cx.st, pl, mk('sink', s.a[0], s.a[1], CONCAT(s.a[2], a.a[2])))
        if cx.I.fails and s.a[0] == 'w': return fail_result(cx, 'write_fmt')
    elif s.op == 'seq': cx.I.store(cx.st, pl, CONCAT(s, a.a[2]))
    else: return None
    return OK(UNIT)
@model('format')
def _(cx):
    if cx.key.startswith('time::'):
        if not rfc3339_arg(cx, 1): return None
        v = cx.v(0)
        return ITE(bcall('rfc3339able', v), OK(as_seq(mk('call', 'rfc3339', v, ('str',)))), ERR(uncall(cx, 'format-error', ty=('adt', 'format-error', ()))))
    if cx.key.startswith('time::'): return uncall(cx, 'time:format', cx.v(0), cx.v(1))
    if not cx.key.startswith('alloc::fmt'): return None
    a = cx.v(0)
    return a.a[2] if a.op == 'adt' else None
@model('to_string')
def _(cx):
    return render(cx, strip(cx.targs[0]), cx.v(0))
@model('fmt')
def _(cx):
    tr = cx.c.get('trait', '')
    if not tr.startswith('core::fmt'): return None
    pl, s = follow(cx.I, cx.st, cx.args[1])
    if s.op != 'sink' or pl is None: return None
    r = render(cx, strip(cx.targs[0]), cx.v(0), tr)
    cx.I.store(cx.st, pl, mk('sink', s.a[0], s.a[1], CONCAT(s.a[2], r)))
    return OK(UNIT)
@model('pad_integral')
def _(cx):
    pl, s = follow(cx.I, cx.st, cx.args[0])
    if s.op != 'sink' or pl is None: return None
    b = cx.seq(3)
    c = cx.I.cond(cx.v(1), cx.st)
    cx.I.store(cx.st, pl, mk('sink', s.a[0], s.a[1], CONCAT(s.a[2], ITE(c, mk('seq'), as_seq(SEQ(LIT((45,))))), b)))
    return OK(UNIT)

# ------------------------------------------------------------------ hex / base64
def asref_bytes(cx, i, ti=0):
    """the bytes a generic AsRef<[u8]> argument lends"""
    t = strip(cx.targs[ti]) if len(cx.targs) > ti else None
    if t and t[0] == 'adt' and (cx.I.P.adts.get(t[1]) or {}).get('local'):
        im = cx.I.find_impl('core::convert::AsRef', (t, ('slice', ('int', 'u8'))))
        if im:
            for n, k, _ in im[0]['items']:
                if n == 'as_ref' and k in cx.I.P.bodies and not any(f[0] == k for f in cx.I.stack):
                    r = cx.I.call_local(k, [cx.v(i)], cx.st, dict(im[1]), None, cx.x)
                    _, v = follow(cx.I, cx.st, r)
                    return as_seq(v)
    return cx.seq(i)
def _hex_encode(cx):
    s = asref_bytes(cx, 0)
    return LS('hexenc', lambda z: as_seq(mk('hex', as_seq(z))), s)
@model('encode')
def _(cx):
    if cx.key.startswith('hex'): return _hex_encode(cx)
    if cx.key.startswith('base64'):
        e = b64_engine(cx.v(0))
        if e is None: return None
        return as_seq(mk('call', 'b64' + ('' if e[:2] == ('+/', 1) else ':%s:%d' % e[:2]), asref_bytes(cx, 1), STR))
@model('decode')
def _(cx):
    if cx.key.startswith('hex'):
        s = asref_bytes(cx, 0)
        def f(s):
            if s.op in ('unk', 'undef'): return s
            s = as_seq(s)
            u = unhex(s)
            if u is not None: return OK(u)
            d = mk('call', 'unhex', s, VECU8)
            # two characters per byte
            return ITE(bcall('ishex', s), OK(as_seq(SEQ(SUB(d, INT(0), div(LEN(s), INT(2)))))), ERR(mk('call', 'hexerr', s, ('unk',))))
        return LS('hexdec', f, s)
    if cx.key.startswith('base64'):
        s = cx.seq(1)
        e = b64_engine(cx.v(0))
        if e is None: return None
        def f(s):
            for q in (s, s.a[0].a[0] if s.op == 'seq' and len(s.a) == 1 and s.a[0].op == 'sub' else s):
                if q.op == 'call' and q.a[0].startswith('b64'):
                    al, pd = ('+/', 1) if q.a[0] == 'b64' else (q.a[0].split(':')[1], int(q.a[0].split(':')[2]))
                    if al == e[0] and (e[3] == 0 or (e[3] == 1) == bool(pd)): return OK(q.a[1])
            g = '' if e == ('+/', 1, 0, 1) else ':%s:%d:%d' % (e[0], e[2], e[3])
            return ITE(bcall('isb64' + g, s), OK(as_seq(mk('call', 'unb64' + g, s, VECU8))), ERR(mk('call', 'b64err', s, ('unk',))))
        return LS('b64dec%d' % fresh_n(), f, s)
def b64_engine(v):
    """(last two symbols of the alphabet, writes padding, allows trailing bits, padding mode)"""
    if v.op != 'adt' or not v.a[0].endswith('GeneralPurpose') or len(v.a) != 5: return None
    al, cf = v.a[2], v.a[4]
    if al.op != 'seq' or not is_const_seq(al) or cf.op != 'adt' or len(cf.a) != 5: return None
    t = bytes(x for p in al.a for x in p.a[0]).decode('latin1')
    pad, trail, mode = cf.a[2:]
    if t[:62] != 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789' or len(t) != 64 or mode.op != 'adt': return None
    if not all(x in (TRUE, FALSE) for x in (pad, trail)): return None
    return (t[62:], int(pad is TRUE), int(trail is TRUE), mode.a[1])
def unhex(s):
    if s.op == 'seq' and len(s.a) == 1 and s.a[0].op == 'sub' and s.a[0].a[0].op == 'hex' and s.a[0].a[1] is INT(0) and s.a[0].a[2] is base_len(s.a[0].a[0]):
        return as_seq(s.a[0].a[0].a[0])
    return None
@model('decode_to_slice')
def _(cx):
    I = cx.I
    s = cx.seq(0)
    pl, buf = follow(I, cx.st, cx.args[1])
    if pl is None: return None
    n = LEN(buf)
    ok = EQ(LEN(s), scale(n, 2))
    # one case per form of the text
    hx = LS('ishex', lambda z: z if z.op in ('unk', 'undef') else TRUE if unhex(as_seq(z)) is not None else bcall('ishex', as_seq(z)), s)
    val = LS('unhex%d' % n.id, lambda z: z if z.op in ('unk', 'undef') else unhex(as_seq(z)) or as_seq(SEQ(SUB(mk('call', 'unhex', as_seq(z), VECU8), INT(0), n))), s)
    ok = AND(ok, hx)
    if ok is TRUE: I.store(cx.st, pl, val); return OK(UNIT)
    I.store(cx.st, pl, ITE(ok, val, buf))
    return ITE(ok, OK(UNIT), ERR(LS('hexerr', lambda z: mk('call', 'hexerr', z, ('unk',)), s)))

# ------------------------------------------------------------------ byteorder
@model('write_u64')
def _(cx):
    pl, buf = follow(cx.I, cx.st, cx.args[0])
    if pl is None or 'byteorder' not in cx.key: return None
    t = strip(cx.targs[0])
    o = 'be' if 'Big' in t[1] else 'le'
    n = LEN(buf)
    cx.I.panic(cx.st, LT(n, INT(8)), 'slice', cx.x)
    if cx.st.pc is FALSE: return UNDEF
    cx.I.store(cx.st, pl, LS('wu64', lambda b: store_at(b, INT(0), INT(8), BYTES(o, 8, cx.v(1))), buf))
    return UNIT
@model('read_u64')
def _(cx):
    t = strip(cx.targs[0]); o = 'be' if 'Big' in t[1] else 'le'
    s = cx.seq(0)
    cx.I.panic(cx.st, LT(LEN(s), INT(8)), 'slice', cx.x)
    if cx.st.pc is FALSE: return UNDEF
    return UNLE(o, 8, slice_(s, INT(0), INT(8)))

# ------------------------------------------------------------------ time
DT = ('adt', 'time::offset_date_time::OffsetDateTime', ())
DUR = ('adt', 'time::duration::Duration', ())
@model('unix_timestamp')
def _(cx):
    if not cx.key.startswith('time'): return None
    v = cx.v(0)
    return unix(v)
def unix(v):
    def f(v):
        if v.op == 'call' and v.a[0] == 'fromunix': return v.a[1]
        return mk('call', 'unix', v, ('int', 'i64'))
    return LS('unix', f, v)
CALL_NORM['unix'] = lambda v, t: unix(v)
@model('from_unix_timestamp')
def _(cx):
    v = cx.v(0)
    lo, hi = CALL_RANGE['unix']
    ok = AND(GE(v, INT(lo)), LE(v, INT(hi)))
    return ITE(ok, OK(fromunix(v)), ERR(mk('call', 'timerange', ('unk',))))
def fromunix(v):
    def f(v):
        if v.op == 'call' and v.a[0] == 'unix': return v.a[1]     # whole-second instants
        return mk('call', 'fromunix', v, DT)
    return LS('fromunix', f, v)
CALL_NORM['fromunix'] = lambda v, t: fromunix(v)
def subns(v):
    """nanoseconds of an instant below the second"""
    def f(v):
        if v.op == 'call' and v.a[0] == 'fromunix': return INT(0)
        return mk('call', 'subns', v, ('int', 'u32'))
    return LS('subns', f, v)
CALL_NORM['subns'] = lambda v, t: subns(v)
@model('unix_timestamp_nanos')
def _(cx):
    if cx.key.startswith('time'): return add(scale(unix(cx.v(0)), 10 ** 9), subns(cx.v(0)))
def _dtsub(k):
    def f(cx):
        if cx.key.startswith('time::offset_date_time'): return div(subns(cx.v(0)), INT(k))
    return f
for _n, _k in (('nanosecond', 1), ('microsecond', 1000), ('millisecond', 10 ** 6)): H[_n] = _dtsub(_k)
@model('whole_nanoseconds')
def _(cx): return wns(cx.v(0))
def wns(v):
    def f(v):
        if v.op == 'call' and v.a[0] == 'nanos': return v.a[1]
        return mk('call', 'wns', v, ('int', 'i128'))
    return LS('wns', f, v)
CALL_NORM['wns'] = lambda v, t: wns(v)
def nanos(v):
    def f(v):
        if v.op == 'call' and v.a[0] == 'wns': return v.a[1]
        return mk('call', 'nanos', v, DUR)
    return LS('nanos', f, v)
CALL_NORM['nanos'] = lambda v, t: nanos(v)
CONSTS['time::Duration::ZERO'] = lambda I, x, st: nanos(INT(0))
for _n, _k in (('NANOSECOND', 1), ('MICROSECOND', 1000), ('MILLISECOND', 10 ** 6), ('SECOND', 10 ** 9), ('MINUTE', 60 * 10 ** 9), ('HOUR', 3600 * 10 ** 9), ('DAY', 86400 * 10 ** 9), ('WEEK', 7 * 86400 * 10 ** 9)):
    CONSTS['time::Duration::' + _n] = lambda I, x, st, _k=_k: nanos(INT(_k))
def _dur(mult):
    def f(cx):
        if not cx.key.startswith('time'): return None
        r = scale(cx.v(0), mult)
        if mult > 10 ** 9 and r.op not in ('unk', 'undef'):
            cx.I.panic(cx.st, OR(LT(r, INT(DMIN)), GT(r, INT(DMAX))), 'range', cx.x)
            if cx.st.pc is FALSE: return UNDEF
        return nanos(r)
    return f
H['nanoseconds'] = _dur(1); H['microseconds'] = _dur(1000); H['milliseconds'] = _dur(10 ** 6)
H['seconds'] = _dur(10 ** 9); H['minutes'] = _dur(60 * 10 ** 9); H['hours'] = _dur(3600 * 10 ** 9)
H['days'] = _dur(86400 * 10 ** 9); H['weeks'] = _dur(7 * 86400 * 10 ** 9)
def _whole(k):
    def f(cx):
        if not cx.key.startswith('time'): return None
        return div(wns(cx.v(0)), INT(k))
    return f
NSU = {'microseconds': 1000, 'milliseconds': 10 ** 6, 'seconds': 10 ** 9, 'minutes': 60 * 10 ** 9, 'hours': 3600 * 10 ** 9, 'days': 86400 * 10 ** 9, 'weeks': 7 * 86400 * 10 ** 9}
for _n, _k in NSU.items(): H['whole_' + _n] = _whole(_k)
def _subsec(k):
    def f(cx):
        if not cx.key.startswith('time::duration'): return None
        return div(rem(wns(cx.v(0)), INT(10 ** 9)), INT(k))
    return f
for _n, _k in (('nanoseconds', 1), ('microseconds', 1000), ('milliseconds', 10 ** 6)): H['subsec_' + _n] = _subsec(_k)
@model('is_zero', 'is_negative', 'is_positive')
def _(cx):
    if cx.key.startswith('time::duration'):
        w = wns(cx.v(0))
        return EQ0(w) if cx.name == 'is_zero' else LT(w, INT(0)) if cx.name == 'is_negative' else GT(w, INT(0))
    if cx.key.startswith('core::num') and cx.name != 'is_zero':
        return LT(cx.v(0), INT(0)) if cx.name == 'is_negative' else GT(cx.v(0), INT(0))
    if bigt(tyarg(cx)) or (cx.c.get('trait') or '').startswith('num_traits'):
        v = cx.v(0)
        if is_int(v): return EQ0(v) if cx.name == 'is_zero' else LT(v, INT(0)) if cx.name == 'is_negative' else GT(v, INT(0))
DMIN, DMAX = -(1 << 63) * 10 ** 9, ((1 << 63) - 1) * 10 ** 9 + 999999999
def time_op(cx, op):
    """arithmetic on durations and instants"""
    t = [strip(x) for x in cx.targs[:2]]
    a, b = cx.v(0), cx.v(1)
    if len(t) < 2: t = (t + [DUR, DUR])[:2]
    if t[0] == DUR and t[1] == DUR and op in ('add', 'sub'): r = (add if op == 'add' else sub)(wns(a), wns(b))
    elif t[0] == DUR and t[1][0] == 'int' and op in ('mul', 'div'):
        if op == 'div':
            cx.I.panic(cx.st, EQ0(b), 'divzero', cx.x)
            if cx.st.pc is FALSE: return UNDEF
        r = (mul if op == 'mul' else div)(wns(a), b)
    elif t[1] == DUR and t[0][0] == 'int' and op == 'mul': r = mul(wns(b), a)
    elif t[0] == DT and t[1] == DUR and op in ('add', 'sub'):
        # instants are whole seconds here
        w = wns(b)
        lo, hi = CALL_RANGE['unix']
        r = (add if op == 'add' else sub)(scale(unix(a), 10 ** 9), w)
        cx.I.panic(cx.st, OR(LT(r, INT(lo * 10 ** 9)), GT(r, INT(hi * 10 ** 9 + 999999999))), 'range', cx.x)
        if cx.st.pc is FALSE: return UNDEF
        return fromunix(div(r, INT(10 ** 9))) if rem(w, INT(10 ** 9)) is INT(0) else uncall(cx, 'op:' + op, a, b)
    else: return None
    cx.I.panic(cx.st, OR(LT(r, INT(DMIN)), GT(r, INT(DMAX))), 'range', cx.x)
    if cx.st.pc is FALSE: return UNDEF
    return nanos(r)

# ------------------------------------------------------------------ ed25519
@model('from_bytes')
def _(cx):
    k = cx.key
    if 'verifying' in k: 
        s = cx.seq(0)
        return ITE(bcall('validpoint', s), OK(mk('call', 'vk', s, ('adt', 'VerifyingKey', ()))), ERR(mk('call', 'sigerr', ('unk',))))
    if 'signing' in k: return mk('call', 'sk', cx.seq(0), ('adt', 'SigningKey', ()))
    if k.startswith('ed25519::'): return mk('call', 'sig', cx.seq(0), ('adt', 'EdSignature', ()))
    return None
@model('to_bytes')
def _(cx):
    v = cx.v(0)
    def f(v):
        if v.op == 'call' and v.a[0] in ('sig', 'vk', 'sk'): return v.a[1]
        return as_seq(mk('call', 'bytes_of', v, ('array', U8, (('cval', '64'),))))
    if 'ed25519' in cx.key: return LS('tobytes', f, v)
@model('to_keypair_bytes')
def _(cx):
    v = cx.v(0)
    def f(v):
        if v.op == 'call' and v.a[0] == 'sk':
            return CONCAT(v.a[1], as_seq(mk('call', 'pubkey', v.a[1], ('array', U8, (('cval', '32'),)))))
        return UNK('keypair')
    return LS('kp', f, v)
@model('sign')
def _(cx):
    if 'signer' not in cx.key: return None
    return mk('call', 'edsign', cx.v(0), cx.seq(1), ('adt', 'EdSignature', ()))
@model('verify', 'verify_strict')
def _(cx):
    if 'verif' not in cx.key: return None
    return ITE(bcall('ed' + cx.name, cx.v(0), cx.seq(1), cx.v(2)), OK(UNIT), ERR(mk('call', 'sigerr', ('unk',))))

# ------------------------------------------------------------------ big numbers / misc externals
def work_call(cx):
    n = cx.name
    if n == 'to_big_endian':
        pl, buf = follow(cx.I, cx.st, cx.args[1]) if len(cx.args) > 1 else (None, None)
        v = cx.v(0)
        s = LS('u256be', lambda v: as_seq(v.a[1]) if v.op == 'call' and v.a[0] == 'uint::from_be' else as_seq(mk('call', 'uint::be', v, ('array', U8, (('cval', '32'),)))), v)
        if pl is None: return s
        cx.I.store(cx.st, pl, s)
        return UNIT
    if n == 'from_big_endian':
        s = cx.seq(0)
        def f(s):
            if s.op == 'seq' and len(s.a) == 1 and s.a[0].op == 'sub' and s.a[0].a[0].op == 'call' and s.a[0].a[0].a[0] == 'uint::be' : return s.a[0].a[0].a[1]
            if s.op == 'call' and s.a[0] == 'uint::be': return s.a[1]
            return mk('call', 'uint::from_be', s, ('adt', 'sia::types::work::Work', ()))
        return LS('u256fb', f, s)
    if n == 'to_little_endian' and len(cx.args) == 1:
        def le(v):
            q = as_seq(v.a[1]) if v.op == 'call' and v.a[0] == 'uint::from_be' else as_seq(mk('call', 'uint::be', v, ('array', U8, (('cval', '32'),))))
            return as_seq(SEQ(*[ONE(index(q, INT(31 - i), U8)) for i in range(32)])) if LEN(q) is INT(32) else UNK('work bytes')
        return LS('u256le', le, cx.v(0))
    if n == 'from_little_endian':
        q = cx.seq(0)
        if q.op != 'seq' or LEN(q) is not INT(32): return None
        return mk('call', 'uint::from_be', as_seq(SEQ(*[ONE(index(q, INT(31 - i), U8)) for i in range(32)])), ('adt', 'sia::types::work::Work', ()))
    if n == 'zero': return mk('call', 'uint::from_be', mk('seq', LIT((0,) * 32)), ('adt', 'sia::types::work::Work', ()))
    if n == 'one': return mk('call', 'uint::from_be', mk('seq', LIT((0,) * 31 + (1,))), ('adt', 'sia::types::work::Work', ()))
    if n == 'max_value': return mk('call', 'uint::from_be', mk('seq', LIT((255,) * 32)), ('adt', 'sia::types::work::Work', ()))
    if n == 'from_dec_str':
        def dp(q):
            if q.op == 'seq' and len(q.a) == 1 and q.a[0].op == 'sub' and q.a[0].a[0].op == 'call' and q.a[0].a[0].a[0] == 'uint::dec' and q.a[0].a[1] is INT(0) and q.a[0].a[2] is LEN(q.a[0].a[0]): return OK(q.a[0].a[0].a[1])
            return ITE(bcall('isdec256', q), OK(mk('call', 'uint::undec', q, ('adt', 'sia::types::work::Work', ()))), ERR(mk('call', 'parseint', q, ('unk',))))
        return LS('u256dec', dp, cx.seq(0))
    if n in ('to_string', 'fmt'): return None
    return UNK('256-bit arithmetic ' + n)
    if cx.rty == ('tuple', ()) or any(a.op == 'mref' for a in cx.args): return None
    return uncall(cx, 'uint::' + n, *[cx.v(i) for i in range(len(cx.args))])

def serde_call(cx):
    vals = []
    for i, a in enumerate(cx.args):
        v = cx.I.rval(cx.st, a)
        if v.op in ('unk', 'undef'): return v
        vals.append(v)
    t = strip(cx.rty) if cx.rty else ('unk',)
    return wrapb(mk('call', 'serde:' + cx.name, *vals, t), t)

def generic_ext(prefix):
    def f(cx):
        if not cx.key.startswith(prefix): return None
        return uncall(cx, cx.key.split('::')[0] + ':' + cx.name, *[cx.v(i) for i in range(len(cx.args))])
    return f
for _n in ('from_entropy_in', 'parse_in'): H[_n] = generic_ext('bip39')
@model('to_entropy')
def _(cx):
    return uncall(cx, 'bip39:to_entropy', cx.v(0))
@model('numer', 'denom')
def _(cx):
    if 'num_rational' not in cx.key: return None
    B = ('adt', 'num_bigint::bigint::BigInt', ())
    i = cx.name
    return LS('rat' + i, lambda r: mk('call', 'rat_num' if i == 'numer' else 'rat_den', r.a[0], r.a[1], B) if r.op == 'ratio' else r if r.op in ('unk', 'undef') else UNK('ratio'), cx.v(0))
@model('to_integer', 'trunc_', 'floor_')
def _(cx):
    if 'num_rational' not in cx.key: return None
    return LS('ratint', lambda r: div(r.a[0], r.a[1]) if r.op == 'ratio' else UNK('ratio'), cx.v(0))
@model('from_float', 'approximate_float')
def _(cx):
    v = cx.v(0)
    if cx.name == 'from_float' and v.op == 'flt' and 'num_rational' in cx.key:
        n, d = v.a
        return SOME(mk('ratio', INT(n), INT(d)))
def _num_from(cx):
    if not (cx.c.get('trait') or '').endswith('FromPrimitive') or not bigt(cx.targs[0]): return None
    v = cx.v(0)
    if not is_int(v): return None
    if strip(cx.targs[0])[1].endswith('BigUint'): return ITE(GE(v, INT(0)), SOME(v), NONE)
    return SOME(v)
for _t in INTN: H['from_' + _t] = _num_from
def _num_to(cx):
    if not (cx.c.get('trait') or '').endswith('ToPrimitive'): return None
    t = cx.name[3:]
    def f(v):
        if not is_int(v): return UNK('toprim')
        lo, hi = RANGES[t]
        return ITE(AND(GE(v, INT(lo)), LE(v, INT(hi))), SOME(v), NONE)
    return LS('toprim' + t, f, cx.v(0))
for _t in INTN: H['to_' + _t] = _num_to
for _n in ('to_value', 'from_value'):
    H[_n] = lambda cx: uncall(cx, 'json:' + cx.name, *[cx.v(i) for i in range(len(cx.args))])

CONSTS['time::OffsetDateTime::UNIX_EPOCH'] = lambda I, x, st: fromunix(INT(0))

# ---------------------------------------------------------------- raw pointers into a local buffer
@model('as_mut_ptr')
def _(cx):
    pl, v = follow(cx.I, cx.st, cx.args[0])
    if pl is None or not cx.key.startswith(('core::slice', 'core::array', 'alloc::vec')): return None
    return mk('mref', pl[0], pl[1] + (('x', INT(0), strip(cx.targs[0])),))

_ptr_old = {n: H.get(n) for n in ('add', 'offset', 'wrapping_add', 'wrapping_offset')}
@model('add', 'offset', 'wrapping_add', 'wrapping_offset')
def _(cx):
    if cx.key.startswith('core::ptr::mut_ptr'):
        p = cx.args[0]
        if p.op == 'mref' and p.a[1] and p.a[1][-1][0] == 'x':
            l = p.a[1][-1]
            return mk('mref', p.a[0], p.a[1][:-1] + (('x', add(l[1], cx.v(1)), l[2]),))
        return None
    o = _ptr_old.get(cx.name)
    return o(cx) if o else None

import strmodel
import itmodels
import edmodels
