"""Disequality witnesses for two abstract summaries.

Two summaries with the same normal form are equal.  When the normal forms differ the difference
may still be a matter of writing only; a *difference in meaning* is reported only when some
assignment of the opaque leaves (fields, lengths, digests) makes the two terms denote different
values.  Nothing of the analysed crate is executed: what is evaluated are the closed terms of
the value domain.
"""
import hashlib, base64
import terms as T
from terms import *
import models as M
import strmodel

def rfc3339(t):
    import datetime
    if not -62135596800 <= t <= 253402300799: raise Unknown('year')
    d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t)
    return list(('%04d-%02d-%02dT%02d:%02d:%02dZ' % (d.year, d.month, d.day, d.hour, d.minute, d.second)).encode())
def unrfc3339(b):
    import re, datetime
    m = re.fullmatch(rb'(\d{4})-(\d\d)-(\d\d)[Tt](\d\d):(\d\d):(\d\d)[Zz]', b)
    if not m:
        if re.fullmatch(rb'\d{4}-\d\d-\d\d.\d\d:\d\d:\d\d.*', b): raise Unknown('rfc3339 form')
        return None
    try: d = datetime.datetime(*[int(x) for x in m.groups()])
    except ValueError: raise Unknown('rfc3339 date')
    return int((d - datetime.datetime(1970, 1, 1)).total_seconds())

def unb64(flavour, t):
    al, trail, mode = ('+/', 0, 1) if not flavour else (flavour.split(':')[1], *map(int, flavour.split(':')[2:]))
    b = t.rstrip(b'=')
    pad = len(t) - len(b)
    sym = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789' + al.encode()
    if any(c not in sym for c in b) or len(b) % 4 == 1: return None
    need = -len(b) % 4
    if mode == 1 and pad != need or mode == 2 and pad or mode == 0 and pad > need: return None
    v = 0
    for c in b: v = v * 64 + sym.index(c)
    bits = 6 * len(b) % 8
    if bits and v & ((1 << bits) - 1) and not trail: return None
    return (v >> bits).to_bytes(6 * len(b) // 8, 'big')

class Unknown(Exception): pass

# ---- binary64 arithmetic
def unf64(b):
    import re
    try: s = b.decode('ascii')
    except UnicodeDecodeError: return None
    if re.fullmatch(r'[+-]?(inf|infinity|nan)', s, re.I): return float(s)
    if re.fullmatch(r'[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?', s): return float(s)
    return None
def fltop(op, xs):
    import math
    if op == 'parse':
        r = unf64(bytes(xs[0]))
        if r is None: raise Undef()
        return r
    if op == 'of': return float(xs[0])
    a = xs[0]
    if not isinstance(a, float): raise Unknown('float')
    if op.startswith('to:'):
        lo, hi = RANGES[op[3:]]
        if a != a: return 0
        if a in (float('inf'), float('-inf')): return hi if a > 0 else lo
        return max(lo, min(hi, int(a)))
    if op == 'is_nan': return a != a
    if op == 'is_finite': return math.isfinite(a)
    if op == 'is_sign_negative': return math.copysign(1, a) < 0
    if op == 'abs': return abs(a)
    if op in ('round', 'floor', 'ceil', 'trunc'):
        if not math.isfinite(a): return a
        if op == 'round':
            r = math.floor(abs(a)); r += abs(a) - r >= 0.5
            return math.copysign(float(r), a)
        return math.copysign(float({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}[op](a)), a)
    b = xs[1]
    if op == 'powi':
        r, n = 1.0, abs(b)
        if n > 4000: raise Unknown('powi')
        try:
            while True:
                if n & 1: r *= a
                n >>= 1
                if not n: break
                a *= a
            return 1 / r if b < 0 else r
        except (OverflowError, ZeroDivisionError): raise Unknown('powi')
    if not isinstance(b, float): raise Unknown('float')
    try:
        return {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mul': lambda: a * b, 'Div': lambda: a / b, 'Rem': lambda: math.fmod(a, b),
                'Eq': lambda: a == b, 'Lt': lambda: a < b, 'Le': lambda: a <= b, 'Gt': lambda: a > b, 'Ge': lambda: a >= b}[op]()
    except (KeyError, ZeroDivisionError, OverflowError, ValueError): raise Unknown('float ' + op)
class Undef(Exception): pass

def H(*xs):
    return hashlib.blake2b(repr(xs).encode(), digest_size=16).digest()

class Rand:
    __slots__ = ('h', 'n')
    def __init__(self, *xs): self.h = H(*xs); self.n = int.from_bytes(self.h, 'little')
    def __call__(self, k):
        if k <= 0: return 0
        if self.n < k * 1024:
            self.h = H(self.h); self.n = (self.n << 128) | int.from_bytes(self.h, 'little')
        r = self.n % k; self.n //= k
        return r

class Obj:
    """opaque value of a declared type; its parts are decided on demand"""
    __slots__ = ('ty', 'tok', 'v', 'f', 'depth')
    def __init__(self, ty, tok, depth=0): self.ty = ty; self.tok = tok; self.v = None; self.f = {}; self.depth = depth

class LList:
    __slots__ = ('n', 'f', 'c')
    def __init__(self, n, f): self.n = n; self.f = f; self.c = {}
    def __len__(self): return self.n
    def __getitem__(self, i):
        if isinstance(i, slice): return [self[j] for j in range(*i.indices(self.n))]
        if not 0 <= i < self.n: raise Undef()
        if i not in self.c: self.c[i] = self.f(i)
        return self.c[i]
    def __iter__(self): return (self[j] for j in range(self.n))

def elem_of(t):
    if t[0] in ('array', 'slice'): return M.strip(t[1])
    if t[0] == 'adt' and t[1] == 'alloc::vec::Vec': return M.strip(t[2][0])
    if t[0] == 'str' or t[0] == 'adt' and t[1] == 'alloc::string::String': return ('int', 'char8')
    return None

def alen(t):
    c = t[2]
    if isinstance(c, int): return c
    if isinstance(c, tuple):
        d = dict(c)
        if 'cval' in d: return int(d['cval'])
    return None

def consts_of(*ts):
    """interesting integers: bounds of the integer atoms"""
    pool = set()
    for t in ts:
        for n in find_ops(t, ('eq0', 'ge0')):
            iv = T._single(n.a[0])
            if iv and iv[1]:
                v = -iv[2] // iv[1]
                for d in (-1, 0, 1): pool.add(v + d)
            else:
                c, _ = lin_parts(n.a[0])
                pool.add(abs(c))
        for n in find_ops(t, ('rem', 'div', 'and')):
            for x in n.a:
                if isinstance(x, Node) and x.op == 'int': pool.add(x.a[0]); pool.add(x.a[0] - 1)
    return sorted(x for x in pool if abs(x) < 2 ** 130)

def lits_of(*ts):
    """texts occurring in the terms"""
    out = set()
    for t in ts:
        for n in find_ops(t, ('lit',)):
            if 0 < len(n.a[0]) <= 32 and all(isinstance(x, int) and 32 <= x < 127 for x in n.a[0]): out.add(bytes(n.a[0]))
    return sorted(out)

class Atom(int):
    """first byte of the encoding of a value"""

class Ev:
    lits = ()
    short = False
    atoms = None      # mark where the encodings of nested values begin
    def __init__(self, I, spec, seed, pool=(), env=None, hints=None):
        self.hints = hints or {}
        self.I = I; self.S = spec; self.seed = seed; self.pool = list(pool)
        self.smallpool = [x for x in self.pool if 0 <= x <= 1500]
        self.memo = {}; self.env = env or {}; self.steps = 0
        self.base = Rand('base', seed)(2 ** 40)
        self.mode = Rand('mode', seed)(6)
        self.keen = isinstance(seed, int) and seed % 3 == 2      # integers mostly next to a bound the program tests
        self.bigpool = []; self.longtok = None
        self.bind = []

    # ------------------------------------------------ generation
    def gen(self, t, tok, depth=0):
        t = M.strip(t) if t else ('unk',)
        k = t[0]
        if k in ('int', 'char'):
            nm = t[1] if len(t) > 1 else 'char'
            if nm == 'bool': return bool(Rand(self.seed, tok, 'b')(2))
            return self.genint(nm, tok)
        if k == 'bool': return bool(Rand(self.seed, tok, 'b')(2))
        e = elem_of(t)
        if e is not None:
            if k == 'array' and alen(t) is not None: n = alen(t)
            elif k == 'array': n = self.gen(('int', 'u8'), ('constlen', t[2])) % 40 if 'Specifier' not in str(t[2]) else 16
            else:
                r = Rand(self.seed, tok, 'len')
                z = r(20)
                n = r(4) if z < 12 else r(12) if z < 16 else 0 if z < 17 else (self.smallpool[r(len(self.smallpool)) if r(2) else -1 - r(min(3, len(self.smallpool)))] if self.smallpool else r(40))
                if self.short: n %= 3
                if depth > 8 and e[0] != 'int': n = min(n, 1)
                if n > 40 and e[0] != 'int':
                    # one long list of values per valuation
                    if self.longtok is None and (e[0] != 'adt' or elem_of(e) is not None or Rand('long', self.seed)(3) == 0): self.longtok = tok
                    if tok != self.longtok: n %= 4
                if self.bigpool:
                    if r(3): n = self.bigpool[r(len(self.bigpool))]
                    return LList(n, (lambda i: 97 + Rand(self.seed, tok, i)(26)) if e == ('int', 'char8') else lambda i: self.gen(e, ('el', tok, i), depth + 1))
            if e == ('int', 'char8'):
                r = Rand(self.seed, tok, 'str')
                s = [97 + r(26) if r(4) else 32 + r(95) for _ in range(n)]
                z = r(12)
                if z == 0: s = [r(128) for _ in range(n)]
                elif z <= 4 and n:
                    # characters that text functions treat specially, at either end
                    c = (0, 32, 10, 9, 34, 92, 65, 48, 0)[r(9)]
                    s[0 if z == 1 else -1] = c
                    if z == 4 and n > 2: s[-2:] = [0xc3, 0xa9]
                return s
            if e == ('int', 'u8'):
                r = Rand(self.seed, tok, 'bytes')
                z = r(8)
                if z == 0: return [0] * n
                if z == 1: return [(7 * j + self.base) % 256 for j in range(n)]
                if z == 3: return [r(256) for _ in range(n - n // 3)] + [0] * (n // 3)
                if z == 2: return [0] * (n - n // 2) + [r(256) for _ in range(n // 2)]
                return [r(256) for _ in range(n)]
            return LList(n, lambda i: self.gen(e, ('el', tok, i), depth + 1))
        if k == 'tuple': return ('tup', [self.gen(x, ('tu', tok, i), depth) for i, x in enumerate(t[1])])
        if k == 'adt':
            if t[1] == 'time::offset_date_time::OffsetDateTime':
                lo, hi = T.CALL_RANGE['unix']
                r = Rand(self.seed, tok, 'ut')
                return ('ut', [0, 1, lo, hi, -1][r(5)] if r(4) == 0 else r(2 ** 33) if r(3) else lo + r(hi - lo + 1))
            if t[1] == 'time::duration::Duration':
                r = Rand(self.seed, tok, 'ns')
                z = r(6)
                return ('ns', [0, 1, 10 ** 9, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64, -1, -10 ** 9, 5 * 10 ** 9 + 7][r(10)] if z < 3 else r(2 ** 50))
            if t[1].endswith('work::Work'): return ('u256', tuple(self.gen(('array', ('int', 'u8'), (('cval', '32'),)), ('wk', tok))))
            return Obj(t, tok, depth)
        return Obj(t, tok, depth)

    def genint(self, nm, tok):
        lo, hi = RANGES[nm]
        r = Rand(self.seed, tok, nm)
        z = r(10)
        if self.keen and self.pool and r(10) < 6: z = 1
        if z == 0: return [lo, 0, 1, 2, hi, hi - 1][r(6)]
        if z <= 2 and self.pool:
            v = self.pool[r(len(self.pool))]
            if lo <= v <= hi: return v
        if z <= 4:
            v = (self.base >> (8 * self.mode)) + r(5) - 2
            if self.pool and r(2): v += self.pool[r(len(self.pool))] * (1 if r(2) else -1)
            if lo <= v <= hi: return v
        if z <= 6: return min(hi, r(20))
        if z == 7: return min(hi, 1 << r(max(1, hi.bit_length())))
        if z == 8: return lo + r(hi - lo + 1)
        return r(1 << (1 + r(hi.bit_length())))  % (hi + 1)

    def variant(self, o):
        if o.v is None:
            a = self.I.P.adts.get(o.ty[1]) if o.ty[0] == 'adt' else None
            n = len(a['variants']) if a else T.ENUMS.get(o.ty[1], 1) if o.ty[0] == 'adt' else 1
            o.v = Rand(self.seed, o.tok, 'v')(n) if n else 0
            if o.ty[0] == 'adt' and o.ty[1].endswith('SpendPolicy') and o.depth > 3 and o.v == 4: o.v = 0
        return o.v

    def field(self, x, vi, i, ty):
        if isinstance(x, Obj):
            if self.variant(x) != vi and len(self.variants(x)) > 1: raise Undef()
            k = (vi, i)
            if k not in x.f:
                t = self.I.field_ty(x.ty, vi, i) or (x.ty[2][i] if x.ty[0] == 'adt' and x.ty[1] in (OPT, RES, CF) and False else ty) or ('unk',)
                if x.ty[0] == 'adt' and x.ty[1] == OPT: t = x.ty[2][0] if x.ty[2] else ('unk',)
                if x.ty[0] == 'adt' and x.ty[1] == RES: t = x.ty[2][vi] if len(x.ty[2]) > vi else ('unk',)
                x.f[k] = self.gen(t, ('f', x.tok, vi, i), x.depth + 1)
            return x.f[k]
        if isinstance(x, tuple) and x[0] == 'adt':
            if x[2] != vi: raise Undef()
            return x[3][i]
        if isinstance(x, tuple) and x[0] == 'tup': return x[1][i]
        if isinstance(x, tuple) and x[0] == 'u256': return list(x[1])
        raise Unknown('field of %r' % (x,))

    def variants(self, o):
        a = self.I.P.adts.get(o.ty[1]) if o.ty[0] == 'adt' else None
        return a['variants'] if a else [0] * (T.ENUMS.get(o.ty[1], 1) if o.ty[0] == 'adt' else 1)

    def canon(self, v, d=0):
        if d > 60: return '...'
        if isinstance(v, bool) or isinstance(v, int): return int(v)
        if isinstance(v, float): return ('F', repr(v))
        if isinstance(v, (list, LList)): return ('L',) + tuple(self.canon(x, d + 1) for x in v)
        if isinstance(v, bytes): return ('L',) + tuple(v)
        if isinstance(v, Obj):
            a = self.I.P.adts.get(v.ty[1]) if v.ty[0] == 'adt' else None
            if a and (a.get('local') or v.ty[1] in (OPT, RES)):
                vi = self.variant(v)
                n = len(a['variants'][vi][1])
                return ('A', v.ty[1], vi) + tuple(self.canon(self.field(v, vi, i, None), d + 1) for i in range(n))
            return ('O', v.tok)
        if isinstance(v, tuple):
            if v[0] == 'adt' and v[1] == T.JMAP:
                # a member that is absent is no member
                return ('A', v[1], v[2]) + tuple(sorted(c for c in (self.canon(x, d + 1) for x in v[3]) if c[2][2] != 0))
            if v[0] == 'adt': return ('A', v[1], v[2]) + tuple(self.canon(x, d + 1) for x in v[3])
            if v[0] == 'tup': return ('T',) + tuple(self.canon(x, d + 1) for x in v[1])
            return v
        raise Unknown('canon %r' % (v,))

    # ------------------------------------------------ evaluation
    def ev(self, n):
        if n.op == 'int': return n.a[0]
        if n.op == 'bool': return n.a[0]
        free = bvset(n)
        k = (n.id, tuple(self.env.get(l) for l in sorted(free))) if free else n.id
        if k in self.memo:
            r = self.memo[k]
            if isinstance(r, Exception): raise r
            return r
        self.steps += 1
        if self.steps > 400000: raise Unknown('budget')
        try:
            r = self.ev1(n)
        except (Unknown, Undef) as e:
            self.memo[k] = e
            raise
        self.memo[k] = r
        return r

    def withbv(self, lvl, val, n):
        old = self.env.get(lvl)
        self.env[lvl] = val
        try: return self.ev(n)
        finally:
            if old is None: self.env.pop(lvl, None)
            else: self.env[lvl] = old

    def seqv(self, n):
        v = self.ev(n)
        if isinstance(v, (list, LList)): return v
        if isinstance(v, bytes): return list(v)
        if isinstance(v, tuple) and v[0] == 'sink': return v[1]
        raise Unknown('not a sequence: %r' % (v,))

    def maybe(self, n):
        try: return (self.ev(n),)
        except Undef: return None
    def truth(self, a):
        v = self.ev(a)
        if isinstance(v, bool): return v
        if isinstance(v, int): return bool(v)
        raise Unknown('truth')

    def piece(self, p):
        op = p.op
        if op == 'lit': return list(p.a[0])
        if op == 'one':
            v = self.ev(p.a[0])
            return [int(v) if isinstance(v, bool) else v]
        if op == 'sub':
            b = self.base_seq(p.a[0]); o = self.ev(p.a[1]); k = self.ev(p.a[2])
            if o < 0 or k < 0 or o + k > len(b): raise Undef()
            if k > (200000 if self.bigpool else 20000): raise Unknown('long')
            return list(b[o:o + k])
        if op == 'rep':
            k = self.ev(p.a[0])
            if k > 20000 or k < 0: raise Unknown('long')
            return [self.ev(p.a[1])] * k
        if op == 'map':
            k = self.ev(p.a[0])
            if k > 5000 or k < 0: raise Unknown('long')
            out = []
            for i in range(k): out.extend(self.seqof(p.a[1], p.a[2], i))
            return out
        if op == 'alt':
            v = self.ev(p.a[0])
            return list(v)
        if op == 'enc':
            if self.atoms is None: return self.enc(p)
            b = list(self.enc(p))
            if b:
                v = p.a[2]
                if p.a[1][0] == 'fn' and v.op == 'tup': v = v.a[0]
                h = Atom(b[0]); h.atom = (p.a[0], p.a[1], self.ev(v), len(b))
                b[0] = h
            return b
        if op in ('tail',): raise Unknown(op)
        raise Unknown('piece ' + op)

    def seqof(self, n, lvl, i):
        v = self.withbv(lvl, i, n)
        if not isinstance(v, (list, LList)): raise Unknown('seq')
        return list(v)

    def base_seq(self, b):
        v = self.ev(b)
        if isinstance(v, (list, LList)): return v
        if isinstance(v, bytes): return list(v)
        if isinstance(v, tuple) and v[0] == 'u256': return list(v[1])
        raise Unknown('base')

    def enc(self, p):
        kind, ty, v = p.a
        if ty[0] == 'fn':
            if v.op == 'tup': v = v.a[0]
            x = self.ev(v)
            return self.encval('policy', ('adt', self.S.SP, ()), x)
        return self.encval(kind, M.strip(ty), self.ev(v))

    def encval(self, kind, ty, x):
        key = ('encval', kind, repr(ty), self.canon(x))
        r = self.memo.get(key)
        if r is None:
            # expand the table entry on a fresh symbol and evaluate it with that symbol bound to x
            if isinstance(x, Obj) and x.ty != ty and x.ty[0] == 'adt' and ty[0] == 'adt' and x.ty[1] != ty[1]: raise Unknown('type confusion')
            s = mk('sym', 'enc!', ty)
            if kind == 'policy': t = self.S.policy_body(s)
            else: t = self.S.expand(kind, ty, SYM('enc!', ty))
            if t is None:
                c = self.canon(x)
                t = H('encopaque', kind, repr(ty), c)
                r = list(t[:1 + t[0] % 8])
            else:
                sub_ = Ev(self.I, self.S, self.seed, self.pool, hints=self.hints); sub_.short = self.short
                sub_.memo[s.id] = x
                sub_.bind = self.bind + [x]
                sub_.steps = self.steps
                sub_.shared = self
                r = list(sub_.seqv(t))
                self.steps = sub_.steps
            self.memo[key] = r
        return r

    def ev1(self, n):
        op = n.op; a = n.a
        if op == 'sym':
            h = self.hints.get(a[0])
            if h is not None:
                v = h(self, Rand(self.seed, 'hint', a[0]))
                if v is not None: return v
            return self.gen(a[1], ('sym', a[0]))
        if op == 'bv':
            if a[0] not in self.env: raise Unknown('bv')
            return self.env[a[0]]
        if op == 'ite':
            try: c = self.truth(a[0])
            except Undef:
                # a condition without a value decides nothing: it was guarded before atoms were put in order
                x, y = self.maybe(a[1]), self.maybe(a[2])
                if x is None: return self.ev(a[2])
                if y is not None and self.canon(x[0]) != self.canon(y[0]): raise
                return x[0]
            return self.ev(a[1] if c else a[2])
        if op == 'lin': return a[0] + sum(k * self.int(t) for t, k in a[1])
        if op == 'eq0': return self.int(a[0]) == 0
        if op == 'ge0': return self.int(a[0]) >= 0
        if op == 'eq': return self.canon(self.ev(a[0])) == self.canon(self.ev(a[1]))
        if op == 'isv':
            x = self.ev(a[0])
            if isinstance(x, Obj): return self.variant(x) == a[1]
            if isinstance(x, tuple) and x[0] == 'adt': return x[2] == a[1]
            raise Unknown('isv')
        if op == 'fld': return self.field(self.ev(a[0]), a[1], a[2], a[3])
        if op == 'idx':
            b = self.base_seq(a[0]); i = self.int(a[1])
            if not 0 <= i < len(b): raise Undef()
            return b[i]
        if op == 'len': return len(self.base_seq(a[0]))
        if op == 'adt': return ('adt', a[0], a[1], [self.ev(x) for x in a[2:]])
        if op == 'tup': return ('tup', [self.ev(x) for x in a])
        if op == 'seq':
            out = []
            for p in a: out.extend(self.piece(p))
            return out
        if op == 'sl': return self.seqv(a[0])
        if op == 'sink': return ('sink', list(self.seqv(a[2])))
        if op == 'bytes':
            return list((self.int(a[2]) % (1 << (8 * a[1]))).to_bytes(a[1], 'little' if a[0] == 'le' else 'big'))
        if op == 'hb':
            c = self.canon(self.ev(a[2]))
            h = hashlib.blake2b(repr(c).encode(), digest_size=min(64, a[1]), person=str(a[0])[:16].encode()).digest()
            return list(h) + [0] * (a[1] - len(h))
        if op == 'hex':
            return list(bytes(self.seqv(a[0])).hex().encode())
        if op == 'arr': return self.seqv(a[0])
        if op == 'unle':
            b = self.seqv(a[2])
            if len(b) != a[1]: raise Undef()
            return int.from_bytes(bytes(b), 'little' if a[0] == 'le' else 'big')
        if op == 'cast' or op == 'wrap':
            v = self.int(a[1]); w = WIDTH[a[0]]
            v %= 1 << w
            return v - (1 << w) if v > RANGES[a[0]][1] else v
        if op == 'flt': return a[0] / a[1] if a[1] else float('nan')
        if op == 'mul': return self.int(a[0]) * self.int(a[1])
        if op in ('div', 'rem'):
            x, y = self.int(a[0]), self.int(a[1])
            if y == 0: raise Undef()
            q = abs(x) // abs(y) * (1 if (x >= 0) == (y >= 0) else -1)
            return q if op == 'div' else x - q * y
        if op in ('and', 'or', 'xor'):
            x, y = self.int(a[0]), self.int(a[1])
            return x & y if op == 'and' else x | y if op == 'or' else x ^ y
        if op == 'shl':
            y = self.int(a[1])
            if not 0 <= y < 512: raise Undef()
            return self.int(a[0]) << y
        if op == 'shr':
            y = self.int(a[1])
            if not 0 <= y < 512: raise Undef()
            return self.int(a[0]) >> y
        if op == 'pow':
            y = self.int(a[1])
            if not 0 <= y < 2000: raise Unknown('pow')
            return self.int(a[0]) ** y
        if op == 'popcnt': return bin(self.int(a[0]) % (1 << a[1])).count('1')
        if op == 'lz': return a[1] - (self.int(a[0]) % (1 << a[1])).bit_length()
        if op == 'tz':
            v = self.int(a[0]) % (1 << a[1])
            return a[1] if v == 0 else (v & -v).bit_length() - 1
        if op == 'first':
            k = self.int(a[0])
            if k > (200000 if self.bigpool else 20000): raise Unknown('long')
            for i in range(k):
                if self.withbv(a[2], i, a[1]): return i
            return k
        if op == 'any':
            k = self.int(a[0])
            if k > (200000 if self.bigpool else 20000): raise Unknown('long')
            return any(self.withbv(a[2], i, a[1]) for i in range(k))
        if op == 'call': return self.call(n)
        if op == 'bcall': return self.bcall(n)
        if op == 'fail': return self.seed % 3 == 0 and not Rand(self.seed, 'fail', repr(n.a))(5)
        if op == 'undef': raise Undef()
        raise Unknown(op)

    def int(self, n):
        v = self.ev(n)
        if isinstance(v, bool): return int(v)
        if isinstance(v, int): return v
        raise Unknown('int %s' % n.op)

    def call(self, n):
        nm = n.a[0]; args = n.a[1:-1]; ty = n.a[-1]
        if nm.startswith('flt:'): return fltop(nm[4:], [self.ev(x) for x in args])
        if nm == 'enclen': return len(self.piece(args[0]))
        if nm in ('maplen', 'plen'): return len(self.piece(args[0]))
        if nm == 'unix':
            v = self.ev(args[0])
            if isinstance(v, tuple) and v[0] == 'ut': return v[1]
            raise Unknown('unix')
        if nm == 'fromunix': return ('ut', self.int(args[0]))
        if nm == 'wns':
            v = self.ev(args[0])
            if isinstance(v, tuple) and v[0] == 'ns': return v[1]
            raise Unknown('wns')
        if nm == 'stream': return self.stream(args)
        if nm == 'nanos': return ('ns', self.int(args[0]))
        if nm == 'uint::be':
            v = self.ev(args[0])
            if isinstance(v, tuple) and v[0] == 'u256': return list(v[1])
            raise Unknown('work')
        if nm == 'uint::dec':
            v = self.ev(args[0])
            if isinstance(v, tuple) and v[0] == 'u256': return list(str(int.from_bytes(bytes(v[1]), 'big')).encode())
            raise Unknown('work')
        if nm == 'uint::undec':
            b = bytes(self.seqv(args[0]))
            if not all(48 <= c < 58 for c in b) or int(b or b'0') >= 2 ** 256: raise Undef()
            return ('u256', tuple(int(b or b'0').to_bytes(32, 'big')))
        if nm == 'uint::from_be': return ('u256', tuple(self.seqv(args[0])))
        if nm == 'rfc3339':
            v = self.ev(args[0])
            if not (isinstance(v, tuple) and v[0] == 'ut'): raise Unknown('rfc3339')
            return rfc3339(v[1])
        if nm == 'unrfc3339':
            v = unrfc3339(bytes(self.seqv(args[0])))
            if v is None: raise Undef()
            return ('ut', v)
        if nm.startswith('js:'):
            r = self.doc(nm[3:], args[0], args[1])
            if not (isinstance(r, tuple) and r[0] == 'adt' and r[2] == 0): raise Undef()
            return r[3][0]
        if nm == 'dec': return list(str(self.int(args[0])).encode())
        if nm == 'anyval' and n.a[-1] in (('str',), ('adt', 'alloc::string::String', ())):
            # a text of a document nothing is known about
            cs = self.canon(self.ev(args[0])) if isinstance(args[0], Node) else ''
            r = Rand(self.seed, 'anytext', H(cs) if not isinstance(cs, str) else cs)
            k = self.seed % 4
            if k == 0: return list(b'20%02d-01-02T03:04:%02dZ' % (r(90), r(60)))
            if k == 1: return list(bytes(b'0123456789abcdef'[r(16)] for _ in range(2 * r(40))))
            if k == 2: return list([b'AAECAw==', b'', b'AAA=', b'AAE'][r(4)])
            if self.lits: return list(self.lits[r(len(self.lits))])
        if nm == 'unhex':
            b = bytes(self.seqv(args[0]))
            try: return list(bytes.fromhex(b.decode('ascii'))) if len(b) % 2 == 0 and b' ' not in b else self.prf(n)
            except ValueError: return [0] * (len(b) // 2)
        if nm == 'b64' or nm.startswith('b64:'):
            al, pd = ('+/', '1') if nm == 'b64' else nm.split(':')[1:]
            t = base64.b64encode(bytes(self.seqv(args[0])), al.encode())
            return list(t if pd == '1' else t.rstrip(b'='))
        if nm.startswith('unb64'):
            v = unb64(nm[5:], bytes(self.seqv(args[0])))
            if v is None: raise Undef()
            return list(v)
        if nm == 'findch':
            b = list(self.seqv(args[0])); c = self.int(args[1])
            if c not in b: raise Undef()
            return b.index(c)
        if nm.startswith('str:'): return self.text(strmodel.FN[nm[4:]], args)
        if nm == 'undec':
            try: return int(bytes(self.seqv(args[0])).decode('ascii'))
            except ValueError: raise Undef()
        if nm in self.FUNS: return self.fun(nm, args)
        return self.prf(n)

    FUNS = {}        # name -> (parameter symbols, defining term): functions given by a term, possibly recursive
    def fun(self, nm, args):
        ps, t = self.FUNS[nm]
        xs = [self.ev(a) for a in args]
        key = ('fun', nm) + tuple(self.canon(x) for x in xs)
        r = self.memo.get(key)
        if r is None:
            sub_ = Ev(self.I, self.S, self.seed, self.pool, hints=self.hints); sub_.short = self.short
            sub_.DOC = self.DOC
            for p, x in zip(ps, xs): sub_.memo[p.id] = x
            sub_.steps = self.steps
            r = sub_.ev(t)
            self.steps = sub_.steps
            self.memo[key] = r
        return r

    DOC = None
    def doc(self, tk, hr, node):
        """Result of writing a value of an exported type as a document"""
        x = self.ev(node)
        key = ('doc', tk, hr.id, self.canon(x))
        r = self.memo.get(key)
        if r is None:
            q = self.DOC(tk, hr) if self.DOC else None
            if q is None: raise Unknown('document')
            s, t = q
            sub_ = Ev(self.I, self.S, self.seed, self.pool, hints=self.hints); sub_.short = self.short
            sub_.DOC = self.DOC
            sub_.memo[s.id] = x
            sub_.steps = self.steps
            r = sub_.ev(t)
            self.steps = sub_.steps
            self.memo[key] = r
        return r

    def text(self, f, args):
        xs = []
        for x in args:
            if not isinstance(x, Node): xs.append(x); continue
            v = self.ev(x)
            if isinstance(v, bool) or isinstance(v, int): xs.append(int(v))
            else: xs.append(list(self.seqv(x)))
        try: return f(*xs)
        except strmodel.NoValue: raise Unknown('text')

    def stream(self, args):
        """an arbitrary unending input"""
        m = Rand(self.seed, 'stream', repr(args[0]))(12)
        sh = Rand(self.seed, 'shift', repr(args[0]))(3)
        small = (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 32)
        bp = [x for x in self.pool if 0 <= x < 256]
        def f(i):
            r = Rand(self.seed, 'stream', i)
            if m > 5 and self.pool:
                # words around the constants the terms mention
                if i < sh: return bp[r(len(bp))] if bp and r(2) else small[r(8)]
                w = self.pool[Rand(self.seed, 'word', (i - sh) // 8)(len(self.pool))]
                return (w >> (8 * ((i - sh) % 8))) & 255
            if m == 0: return r(256)
            if m == 1: return small[r(len(small))]
            if m == 2: return small[r(4)] if i % 8 < 2 else 0
            if m == 3: return r(256) if r(3) == 0 else 0
            if m == 4: return small[r(4)] if i < 2 else r(128)
            return small[r(len(small))] if r(2) else r(256)
        return LList(1 << 40, f)

    def prf(self, n):
        nm = n.a[0]; args = n.a[1:-1]; ty = n.a[-1]
        cs = []
        for x in args:
            cs.append(self.canon(self.ev(x)) if isinstance(x, Node) else repr(x))
        tok = ('call', nm, H(*cs))
        if nm in T.CALL_RANGE:
            lo, hi = T.CALL_RANGE[nm]
            return lo + Rand(self.seed, tok)(hi - lo + 1)
        return self.gen(ty, tok)

    def bcall(self, n):
        nm = n.a[0]
        if nm == 'isf64': return unf64(bytes(self.seqv(n.a[1]))) is not None
        if nm.startswith('flt:'): return fltop(nm[4:], [self.ev(x) for x in n.a[1:]])
        if nm.startswith('str:'): return self.text(strmodel.BF[nm[4:]], n.a[1:])
        if nm.startswith('jsok:'):
            r = self.doc(nm[5:], n.a[1], n.a[2])
            return isinstance(r, tuple) and r[0] == 'adt' and r[2] == 0
        if nm == 'isdec256':
            b = bytes(self.seqv(n.a[1]))
            return all(48 <= c < 58 for c in b) and int(b or b'0') < 2 ** 256
        if nm == 'utf8':
            try: bytes(self.seqv(n.a[1])).decode('utf-8'); return True
            except UnicodeDecodeError: return False
        if nm == 'rfc3339able':
            v = self.ev(n.a[1])
            return isinstance(v, tuple) and v[0] == 'ut' and -62167219200 <= v[1] <= 253402300799
        if nm == 'isrfc3339': return unrfc3339(bytes(self.seqv(n.a[1]))) is not None
        if nm == 'ishex':
            b = bytes(self.seqv(n.a[1]))
            return len(b) % 2 == 0 and all(chr(c) in '0123456789abcdefABCDEF' for c in b)
        if nm.startswith('isb64'): return unb64(nm[5:], bytes(self.seqv(n.a[1]))) is not None
        if nm == 'hasch':
            return self.int(n.a[2]) in list(self.seqv(n.a[1]))
        if nm.startswith('isdec:'):
            try: s = bytes(self.seqv(n.a[1])).decode('ascii')
            except UnicodeDecodeError: return False
            import re
            lo, hi = RANGES[nm[6:]]
            return bool(re.fullmatch(r'\+?\d+' if lo == 0 else r'[+-]?\d+', s)) and lo <= int(s) <= hi
        cs = [self.canon(self.ev(x)) if isinstance(x, Node) else repr(x) for x in n.a[1:]]
        if nm.startswith('anyok:') and self.seed % 8: return True
        return bool(Rand(self.seed, 'bcall', nm, H(*cs))(4))

def differ(I, spec, a, b, cond=TRUE, tries=160, budget=20.0, hints=None):
    """(witness text | None, valuations compared, valuations undecided)"""
    import time
    t0 = time.time()
    pool = consts_of(a, b, cond)
    lits = lits_of(a, b, cond) if hints else ()
    cmpd = und = 0
    for s in range(tries):
        if time.time() - t0 > budget: break
        e = Ev(I, spec, s, pool, hints=hints)
        e.lits = lits
        try:
            if cond is not TRUE and not e.ev(cond): continue
        except (Unknown, Undef, RecursionError): und += 1; continue
        ua = ub = False
        try: va = e.canon(e.ev(a))
        except Unknown: und += 1; continue
        except RecursionError: und += 1; continue
        except Undef: ua = True; va = None
        try: vb = e.canon(e.ev(b))
        except Unknown: und += 1; continue
        except RecursionError: und += 1; continue
        except Undef: ub = True; vb = None
        if ua or ub:
            if ua != ub: und += 1
            continue
        cmpd += 1
        if va != vb: return ('valuation %d: %s  /=  %s' % (s, brief(va), brief(vb)), cmpd, und)
    return (probe_lengths(I, spec, a, b, cond), cmpd, und)

def slen(e, n):
    """length of a sequence term, without materialising it"""
    if n.op == 'ite': return slen(e, n.a[1] if e.truth(n.a[0]) else n.a[2])
    if n.op == 'arr': return slen(e, n.a[0])
    if n.op == 'bytes': return n.a[1]
    if n.op == 'seq':
        t = 0
        for p in n.a:
            if p.op == 'lit': t += len(p.a[0])
            elif p.op == 'one': t += 1
            elif p.op == 'sub':
                k = e.int(p.a[2])
                if k < 0: raise Undef()
                t += k
            elif p.op == 'rep':
                k = e.int(p.a[0])
                if k < 0: raise Undef()
                t += k
            elif p.op == 'map':
                k = e.int(p.a[0])
                if k < 0: raise Undef()
                w = LEN(p.a[1])
                if w.op != 'int': raise Unknown('width')
                t += k * w.a[0]
            else: t += len(e.piece(p))
        return t
    return len(e.seqv(n))

def lendiff(e, a, b):
    """do the two terms denote sequences of different length somewhere?"""
    while a.op == 'ite': a = a.a[1] if e.truth(a.a[0]) else a.a[2]
    while b.op == 'ite': b = b.a[1] if e.truth(b.a[0]) else b.a[2]
    if a is b: return None
    if a.op == 'adt' and b.op == 'adt':
        if a.a[:2] != b.a[:2]: return 'different variants'
        for x, y in zip(a.a[2:], b.a[2:]):
            try: w = lendiff(e, x, y)
            except (Unknown, Undef): continue
            if w: return w
        return None
    for x, y in ((a, b), (b, a)):
        if x.op == 'adt' and y.op in ('sym', 'fld', 'idx'):
            v = e.ev(y)
            if not isinstance(v, Obj) or v.ty[0] != 'adt' or v.ty[1] != x.a[0]: return None
            for i, z in enumerate(x.a[2:]):
                if z.op not in ('seq', 'arr', 'ite'): continue
                try:
                    q = e.field(v, x.a[1], i, None)
                    if not isinstance(q, (list, LList)): continue
                    n = slen(e, z)
                except (Unknown, Undef): continue
                if n != len(q): return 'a sequence has %d elements on one side and %d on the other' % (n, len(q))
            return None
    if 'seq' in (a.op, b.op):
        n, m = slen(e, a), slen(e, b)
        if n != m: return 'a sequence has %d elements on one side and %d on the other' % (n, m)
    return None

def probe_lengths(I, spec, a, b, cond, tries=48, budget=8.0):
    import time
    t0 = time.time()
    pool = consts_of(a, b, cond)
    big = [x for x in pool if 1500 < x < 2 ** 40]
    if not big: return None
    for s in range(tries):
        if time.time() - t0 > budget: break
        e = Ev(I, spec, 5000 + s, pool)
        e.bigpool = big
        try:
            if cond is not TRUE and not e.ev(cond): continue
            w = lendiff(e, a, b)
        except (Unknown, Undef, RecursionError, MemoryError): continue
        if w: return 'valuation %d: %s' % (5000 + s, w)
    return None

def brief(v, n=160):
    if isinstance(v, tuple) and v and v[0] == 'L' and all(isinstance(x, int) and 0 <= x < 256 for x in v[1:]):
        s = bytes(v[1:]).hex()
    else: s = repr(v)
    return s if len(s) <= n else s[:n] + '...(%d)' % len(s)
