"""Value domain of the abstract interpreter: hash-consed terms in normal form.

* integers are mathematical integers in linear normal form (LIN)
* a value that depends on a branch is a multi-terminal decision diagram (ITE over atoms)
* byte strings / vectors / arrays / writer logs are sequences (SEQ) of pieces
Everything is interned, so equality of normal forms is identity.
"""
import sys
from functools import lru_cache
sys.setrecursionlimit(200000)

class Node:
    __slots__ = ('op', 'a', 'id', '_rng', '_bv', '_unk', '_atoms', '_h', '_sup')
    def __init__(self, op, a, i):
        self.op = op; self.a = a; self.id = i
        self._rng = None; self._bv = None; self._unk = None; self._atoms = None; self._sup = None
    def __repr__(self):
        return show(self)

_tab = {}
_cnt = [0]
def mk(op, *a):
    k = (op, a)
    n = _tab.get(k)
    if n is None:
        _cnt[0] += 1
        n = Node(op, a, _cnt[0])
        _tab[k] = n
    return n

def kids(n):
    """direct Node children (looking inside tuples)"""
    out = []
    def go(x):
        if isinstance(x, Node): out.append(x)
        elif isinstance(x, tuple):
            for y in x: go(y)
    for x in n.a: go(x)
    return out

class Payload:
    """non-structural values (closures, places): identity-hashed"""

TRUE = mk('bool', True); FALSE = mk('bool', False)
UNIT = mk('tup')
UNDEF = mk('undef')
def INT(v):
    return mk('int', int(v))
def BOOL(b):
    return TRUE if b else FALSE
_unkc = [0]
def UNK(why):
    _unkc[0] += 1
    return mk('unk', str(why), _unkc[0])

RANGES = {}
for w in (8, 16, 32, 64, 128):
    RANGES['u%d' % w] = (0, 2 ** w - 1)
    RANGES['i%d' % w] = (-2 ** (w - 1), 2 ** (w - 1) - 1)
RANGES['usize'] = RANGES['u64']; RANGES['isize'] = RANGES['i64']
RANGES['char'] = (0, 0x10ffff)
WIDTH = {t: (64 if t.endswith('size') else int(t[1:]) if t != 'char' else 32) for t in RANGES}
BIG = 2 ** 400
LENMAX = 2 ** 63 - 1

def tyrange(ty):
    if isinstance(ty, tuple) and ty and ty[0] in ('int', 'char'):
        return RANGES.get(ty[1] if len(ty) > 1 else 'char')
    return None

def is_bool_ty(ty):
    return isinstance(ty, tuple) and ty and (ty[0] == 'bool' or (ty[0] == 'int' and ty[1] == 'bool'))

def SYM(name, ty):
    n = mk('sym', name, ty)
    return wrapb(n, ty)
def wrapb(n, ty):
    if is_bool_ty(ty):
        return mk('ite', n, TRUE, FALSE)
    return n

def node_ty(n):
    if n.op in ('sym', 'fld', 'idx', 'call', 'phi'):
        return n.a[-1]
    return None

def rng(n):
    r = n._rng
    if r is None:
        r = _rngc(n)
        n._rng = r
    return r

def _rngc(n):
    op = n.op
    if op == 'int': return (n.a[0], n.a[0])
    if op == 'lin':
        lo = hi = n.a[0]
        for t, k in n.a[1]:
            a, b = rng(t)
            if k > 0: lo += k * a; hi += k * b
            else: lo += k * b; hi += k * a
        return (lo, hi)
    if op in ('sym', 'fld', 'idx', 'call', 'phi'):
        if op == 'call' and n.a[0] in CALL_RANGE: return CALL_RANGE[n.a[0]]
        if op == 'idx' and n.a[0].op == 'hex': return (48, 102)
        if op == 'idx' and n.a[0].op in ('bytes', 'hb'): return (0, 255)
        if op == 'idx' and n.a[0].op == 'call' and n.a[0].a[0] in ('dec', 'uint::dec'): return (48 if n.a[0].a[0] == 'uint::dec' or rng(n.a[0].a[1])[0] >= 0 else 45, 57)
        if op == 'call' and n.a[0] == 'findch': return (0, LENMAX)
        r = tyrange(n.a[-1])
        if r: return r
        return (-BIG, BIG)
    if op == 'bv': return (0, LENMAX)
    if op == 'len' and n.a[0].op == 'call' and n.a[0].a[0] in ('dec', 'uint::dec'): return (1, 80)
    if op == 'len': return (0, LENMAX)
    if op in ('cast', 'wrap'): return RANGES[n.a[0]]
    if op == 'and':
        (al, ah), (bl, bh) = rng(n.a[0]), rng(n.a[1])
        if al >= 0 and bl >= 0: return (0, min(ah, bh))
        if al >= 0: return (0, ah)
        if bl >= 0: return (0, bh)
    if op in ('or', 'xor'):
        (al, ah), (bl, bh) = rng(n.a[0]), rng(n.a[1])
        if al >= 0 and bl >= 0:
            m = max(ah, bh)
            return (0, (1 << m.bit_length()) - 1)
    if op == 'first': # first index satisfying a predicate or n
        return (0, max(0, rng(n.a[0])[1]))
    if op in ('popcnt', 'lz', 'tz'): return (0, n.a[1])
    if op == 'div':
        (al, ah), (bl, bh) = rng(n.a[0]), rng(n.a[1])
        if bl > 0 and al >= 0: return (al // bh, ah // bl)
        if bl > 0: return (-((-al) // bl), max(ah, 0) // bl)
    if op == 'rem':
        (al, ah), (bl, bh) = rng(n.a[0]), rng(n.a[1])
        if bl > 0 and al >= 0: return (0, min(ah, bh - 1))
    if op == 'mul':
        (al, ah), (bl, bh) = rng(n.a[0]), rng(n.a[1])
        c = [al * bl, al * bh, ah * bl, ah * bh]
        return (max(-BIG, min(c)), min(BIG, max(c)))
    if op == 'shl':
        (al, ah), (bl, bh) = rng(n.a[0]), rng(n.a[1])
        if al >= 0 and 0 <= bl and bh < 200: return (al << bl, ah << bh)
        return (0 if al >= 0 else -BIG, BIG)
    if op == 'pow':
        (al, ah), (bl, bh) = rng(n.a[0]), rng(n.a[1])
        if al >= 0 and bl >= 0 and bh < 200 and ah < 1000: return (al ** bl, ah ** bh)
        # a negative exponent has no value
        if al >= 0 and 0 <= bh < 200 and ah < 1000: return (0, max(ah, 1) ** bh)
        return (0 if al >= 0 else -BIG, BIG)
    if op == 'ite':
        a, b = rng(n.a[1]), rng(n.a[2])
        return (min(a[0], b[0]), max(a[1], b[1]))
    if op == 'fold':
        return tyrange(n.a[-1]) or (-BIG, BIG)
    if op == 'unle':
        w = n.a[1] * 8
        return (0, 2 ** w - 1)
    return (-BIG, BIG)

CALL_RANGE = {
    'str:count': (0, LENMAX),
    'subns': (0, 999999999),
    'unix': (-377705116800, 253402300799),
    'wns': (-(2 ** 63) * 10 ** 9 - 10 ** 9, (2 ** 63) * 10 ** 9 + 10 ** 9),
}

# ---------------------------------------------------------------- decision diagrams
def top(n):
    return n.a[0] if n.op == 'ite' else None

def cof(n, atom):
    if n.op == 'ite' and n.a[0] is atom: return n.a[1], n.a[2]
    return n, n

_ite = {}
def ITE(c, t, e):
    if c is TRUE: return t
    if c is FALSE: return e
    if t is e: return t
    if t is UNDEF: return e
    if e is UNDEF: return t
    if t is TRUE and e is FALSE: return c
    if c.op != 'ite':
        return UNK('ite-cond:' + c.op)
    if t.op == 'seq' and e.op == 'seq':
        return seq_merge(c, t, e)
    if t.op == e.op and t.op in ('adt', 'tup', 'sink', 'rd', 'it'):
        if t.op == 'adt' and t.a[0] == e.a[0] == JMAP:
            return jmap_merge(c, t, e)
        if t.op == 'adt' and t.a[0] == e.a[0] and t.a[1] == e.a[1] and len(t.a) == len(e.a) and t.a[0] != JVAL:
            return ADT(t.a[0], t.a[1], *[ITE(c, x, y) for x, y in zip(t.a[2:], e.a[2:])])
        if t.op == 'tup' and len(t.a) == len(e.a):
            return mk('tup', *[ITE(c, x, y) for x, y in zip(t.a, e.a)])
        if t.op in ('sink', 'rd') and t.a[:2] == e.a[:2]:
            return mk(t.op, t.a[0], t.a[1], ITE(c, t.a[2], e.a[2]))
        if t.op == 'it' and t.a[0] is e.a[0]:
            return mk('it', t.a[0], ITE(c, t.a[1], e.a[1]))
        if t.op == 'it' and t.a[1] is e.a[1] and t.a[0].op == e.a[0].op == 'd_slice' and t.a[0].a[1:] == e.a[0].a[1:] and t.a[0].a[0].op == e.a[0].a[0].op == 'seq':
            q = seq_merge(c, t.a[0].a[0], e.a[0].a[0])
            if q in (t.a[0].a[0], e.a[0].a[0]): return mk('it', mk('d_slice', q, *t.a[0].a[1:]), t.a[1])
    k = (c, t, e)
    r = _ite.get(k)
    if r is not None: return r
    ats = [x.a[0] for x in (c, t, e) if x.op == 'ite']
    a = min(ats, key=lambda z: z.id)
    c1, c0 = cof(c, a); t1, t0 = cof(t, a); e1, e0 = cof(e, a)
    hi = ITE(c1, t1, e1); lo = ITE(c0, t0, e0)
    r = mkite(a, hi, lo)
    _ite[k] = r
    return r

JMAP = 'serde_json::map::Map'; JVAL = 'serde_json::value::Value'
def jmap_merge(c, s, t):
    """objects on two paths: the union of their members, each present on its own path"""
    none = ADT(OPT, 0)
    ds = [{e.a[0]: e.a[1] for e in x.a[2:]} for x in (s, t)]
    if len(ds[0]) != len(s.a) - 2 or len(ds[1]) != len(t.a) - 2: return UNK('repeated member')
    ks = sorted(set(ds[0]) | set(ds[1]), key=lambda k: bytes(v for p in k.a for v in p.a[0]))
    es = []
    for k in ks:
        x, y = ds[0].get(k, none), ds[1].get(k, none)
        es.append(mk('tup', k, ITE(c, x, y)))
    return mk('adt', JMAP, 0, *es)

def mkite(a, hi, lo):
    hi = assume(hi, a, True); lo = assume(lo, a, False)
    if hi is lo: return hi
    if hi is UNDEF: return lo
    if lo is UNDEF: return hi
    if a.op == 'eq0' and hi.op == 'int' and lo.op in ('lin', 'len', 'first', 'fld', 'sym', 'cast', 'call'):
        iv = _single(a.a[0])
        if iv and iv[1] and iv[2] % iv[1] == 0 and lo.op != 'ite':
            c0, t0 = lin_parts(lo)
            if len(t0) == 1 and t0[0][0] is iv[0] and c0 + t0[0][1] * (-iv[2] // iv[1]) == hi.a[0]: return lo
    # ordering may be violated by assume()'s rewriting only towards smaller diagrams
    if hi.op == 'seq' and lo.op == 'seq':
        return seq_merge(mk('ite', a, TRUE, FALSE), hi, lo)
    return mk('ite', a, hi, lo)

_bit = [0]
def sup(n):
    """which unknowns a term mentions, as a bit set (several unknowns may share a bit)"""
    r = n._sup
    if r is not None: return r
    r = 0; todo = list(n.a); own = False; any_ = False
    while todo:
        x = todo.pop()
        if isinstance(x, Node): any_ = True; r |= sup(x)
        elif isinstance(x, tuple): todo += x
        elif not isinstance(x, (int, str, bytes, float, bool)) and x is not None: own = True
    if own or not any_ and n.op not in ('int', 'bool', 'lit', 'undef'):
        _bit[0] += 1
        r |= 1 << (_bit[0] % 480)
    n._sup = r
    return r

_ass = {}
def assume(n, a, v):
    """simplify the diagram n under literal a=v, using pairwise theory facts"""
    if n.op != 'ite': return n
    s = sup(a)
    if s and not s & sup(n): return n
    k = (n, a, v)
    r = _ass.get(k)
    if r is not None: return r
    b = n.a[0]
    q = rel(a, v, b)
    if q is True: r = assume(n.a[1], a, v)
    elif q is False: r = assume(n.a[2], a, v)
    else:
        h = assume(n.a[1], a, v); l = assume(n.a[2], a, v)
        if h is n.a[1] and l is n.a[2]: r = n
        elif h is l: r = h
        else: r = mkite(b, h, l) if not (h.op == 'seq' and l.op == 'seq') else mkite(b, h, l)
    _ass[k] = r
    return r

@lru_cache(maxsize=None)
def rel(a, v, b):
    if a is b: return v
    if a.op == 'isv' and b.op == 'isv':
        if a.a[0] is b.a[0] and v: return False
        return None
    if a.op in ('eq0', 'ge0') and b.op in ('eq0', 'ge0'):
        la, lb = a.a[0], b.a[0]
        facts = []
        if a.op == 'eq0':
            if v: facts = [('eq', la)]
            else:
                # nonzero: with sign information
                lo, hi = rng(la)
                if lo >= 0: facts = [('ge', add(la, INT(-1)))]
                elif hi <= 0: facts = [('ge', add(neg(la), INT(-1)))]
        else:
            facts = [('ge', la if v else add(neg(la), INT(-1)))]
        for f, l in facts:
            d = sub(lb, l)
            s = add(lb, l)
            if f == 'eq':
                for x in (d, s):
                    if x.op == 'int':
                        return (x.a[0] == 0) if b.op == 'eq0' else (x.a[0] >= 0)
                # scaled
                if la.op == 'lin' and len(la.a[1]) == 1 and lb.op == 'lin' and len(lb.a[1]) == 1:
                    (t1, k1), (t2, k2) = la.a[1][0], lb.a[1][0]
                    if t1 is t2 and la.a[0] % k1 == 0:
                        x = -la.a[0] // k1
                        val = lb.a[0] + k2 * x
                        return (val == 0) if b.op == 'eq0' else (val >= 0)
                    if t1 is t2: pass
                if la.op != 'lin' or len(la.a[1]) == 1:
                    pass
            else:
                dl = rng(d); sl = rng(s)
                # l >= 0 ; lb = l + d ; lb = -l + s
                if b.op == 'ge0':
                    if dl[0] >= 0: return True
                    if sl[1] < 0: return False
                else:
                    if dl[0] > 0: return False
                    if sl[1] < 0: return False
                # single variable intervals
                if l.op in ('lin',) or True:
                    iv = _single(l); jv = _single(lb)
                    if iv and jv and iv[0] is jv[0]:
                        t, k1, c1 = iv; _, k2, c2 = jv
                        lo, hi = rng(t)
                        # k1*t + c1 >= 0
                        if k1 > 0: lo = max(lo, -((c1) // k1) if True else 0)
                        else: hi = min(hi, c1 // (-k1))
                        vals = sorted((k2 * lo + c2, k2 * hi + c2))
                        if b.op == 'ge0':
                            if vals[0] >= 0: return True
                            if vals[1] < 0: return False
                        else:
                            if vals[0] > 0 or vals[1] < 0: return False
                            if lo == hi and vals[0] == 0: return True
        return None
    if a.op == 'eq' and b.op == 'eq' and v:
        # x == c1 excludes x == c2 for distinct constants
        for x, c in ((a.a[0], a.a[1]), (a.a[1], a.a[0])):
            for y, d in ((b.a[0], b.a[1]), (b.a[1], b.a[0])):
                if x is y and is_const_seq(c) and is_const_seq(d) and c is not d: return False
        # x == c fixes the length of x
        return None
    if a.op == 'eq' and v and b.op in ('eq0', 'ge0'):
        for x, c in ((a.a[0], a.a[1]), (a.a[1], a.a[0])):
            if is_const_seq(c):
                iv = _single(b.a[0])
                if iv and iv[0].op == 'len' and iv[0].a[0] is x:
                    val = iv[1] * const_len(c) + iv[2]
                    return (val == 0) if b.op == 'eq0' else (val >= 0)
    if b.op == 'eq' and v and a.op == 'eq0':
        iv = _single(a.a[0])
        if iv and iv[0].op == 'len' and iv[1] in (1, -1):
            L = -iv[2] // iv[1]
            for x, c in ((b.a[0], b.a[1]), (b.a[1], b.a[0])):
                if x is iv[0].a[0] and is_const_seq(c) and const_len(c) != L: return False
    return None

def is_const_seq(n):
    return n.op == 'seq' and all(p.op == 'lit' for p in n.a)
def const_len(n):
    return sum(len(p.a[0]) for p in n.a)

def _single(l):
    if l.op == 'lin':
        if len(l.a[1]) == 1: return (l.a[1][0][0], l.a[1][0][1], l.a[0])
        return None
    if l.op == 'int': return None
    return (l, 1, 0)

def NOT(c): return ITE(c, FALSE, TRUE)
def AND(c, d): return ITE(c, d, FALSE)
def OR(c, d): return ITE(c, TRUE, d)
def ATOM(a): return mk('ite', a, TRUE, FALSE)

_con = {}
def constrain(v, c):
    """simplify v assuming c (generalised cofactor)"""
    if c is TRUE or v.op != 'ite': return v
    if c is FALSE: return UNDEF
    if c.op != 'ite': return v
    k = (v, c)
    r = _con.get(k)
    if r is not None: return r
    a = c.a[0]; b = v.a[0]
    if b.id < a.id:
        h = constrain(v.a[1], assume(c, b, True)); l = constrain(v.a[2], assume(c, b, False))
        r = h if h is l or l is UNDEF else l if h is UNDEF else ITE(ATOM(b), h, l)
    else:
        c1, c0 = c.a[1], c.a[2]
        v1 = assume(v.a[1] if b is a else v, a, True); v0 = assume(v.a[2] if b is a else v, a, False)
        if c1 is FALSE: r = constrain(v0, c0)
        elif c0 is FALSE: r = constrain(v1, c1)
        elif b is a:
            h = constrain(v1, c1); l = constrain(v0, c0)
            r = h if h is l or l is UNDEF else l if h is UNDEF else ITE(ATOM(a), h, l)
        else:
            h = constrain(v1, c1); l = constrain(v0, c0)
            if h is l: r = h
            else: r = h if l is UNDEF else l if h is UNDEF else (constrain(v, OR(c1, c0)) if True else v)
    _con[k] = r
    return r

def leaves(n, acc=None):
    """set of terminal values of a diagram"""
    seen = set(); out = []
    st = [n]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if x.op == 'ite': st.append(x.a[1]); st.append(x.a[2])
        else: out.append(x)
    return out

def paths(n, limit=4000):
    """(literals, leaf) for each path"""
    out = []
    def go(x, lits):
        if len(out) > limit: return
        if x.op == 'ite':
            go(x.a[1], lits + [(x.a[0], True)]); go(x.a[2], lits + [(x.a[0], False)])
        else: out.append((lits, x))
    go(n, [])
    return out

_lift = {}
def lift(name, f, *args):
    """apply f to the leaves of the diagrams among args"""
    if not any(x.op == 'ite' for x in args): return f(*args)
    k = (name,) + args
    r = _lift.get(k)
    if r is not None: return r
    a = min((x.a[0] for x in args if x.op == 'ite'), key=lambda z: z.id)
    cs = [cof(x, a) for x in args]
    hi = lift(name, f, *[assume(c[0], a, True) for c in cs]); lo = lift(name, f, *[assume(c[1], a, False) for c in cs])
    r = ITE(ATOM(a), hi, lo)
    _lift[k] = r
    return r

# ---------------------------------------------------------------- linear arithmetic
def lin_parts(n):
    if n.op == 'int': return n.a[0], ()
    if n.op == 'lin': return n.a[0], n.a[1]
    return 0, ((n, 1),)

def mklin(c, d):
    items = tuple(sorted(((t, k) for t, k in d.items() if k), key=lambda z: z[0].id))
    if not items: return INT(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1: return items[0][0]
    return mk('lin', c, items)

POISON = ('unk', 'undef')
def _bad(*xs):
    for x in xs:
        if x.op == 'undef': return UNDEF
        if x.op == 'unk': return x
    return None

def _add(a, b):
    p = _bad(a, b)
    if p: return p
    ca, ta = lin_parts(a); cb, tb = lin_parts(b)
    d = dict(ta)
    for t, k in tb: d[t] = d.get(t, 0) + k
    for t in d:
        if t.op in ('rem', 'div') and d[t] and t.a[1].op == 'int' and t.a[1].a[0] > 1 and rng(t.a[0])[0] >= 0:
            r = _divrem(ca + cb, d, t)
            if r is not None: return r
    return mklin(ca + cb, d)
def _divrem(c, d, t):
    """x = n*(x div n) + x rem n: drop one of the three where two of them occur together"""
    x, n = t.a[0], t.a[1].a[0]
    if t.op == 'rem':
        o = mk('div', x, t.a[1])
        if d.get(o, 0) and d[o] == n * d[t]:          # k*n*div + k*rem -> k*x
            k = d[t]; e = dict(d); del e[t]; del e[o]
            return _add(mklin(c, e), scale(x, k))
    k = -d[t] if t.op == 'rem' else -d[t] // n if d[t] % n == 0 else 0
    cx, tx = lin_parts(x)
    if k and all(d.get(y, 0) == k * z for y, z in tx):
        e = dict(d); del e[t]
        r = _add(mklin(c, e), scale(x, -k))
        return _add(r, scale(_div(x, t.a[1]), k * n) if t.op == 'rem' else scale(_rem(x, t.a[1]), k))
    return None
def add(a, b): return lift('add', _add, a, b)
def scale(a, k):
    def f(a):
        if _bad(a): return _bad(a)
        c, t = lin_parts(a)
        return mklin(c * k, {x: y * k for x, y in t})
    return lift('scale%d' % k, f, a)
def neg(a): return scale(a, -1)
def sub(a, b): return add(a, neg(b))
def _mul(a, b):
    if _bad(a, b): return _bad(a, b)
    if a.op == 'int': return scale(b, a.a[0])
    if b.op == 'int': return scale(a, b.a[0])
    if a.id > b.id: a, b = b, a
    return mk('mul', a, b)
def FLT(x):
    n, d = x.as_integer_ratio() if x == x and abs(x) != float('inf') else (0, 0)
    return mk('flt', n, d)
def mul(a, b): return lift('mul', _mul, a, b)
def _div(a, b):
    if _bad(a, b): return _bad(a, b)
    if b.op == 'int':
        v = b.a[0]
        if v == 0: return UNK('div0')
        if a.op == 'int':
            q = abs(a.a[0]) // abs(v)
            return INT(q if (a.a[0] >= 0) == (v >= 0) else -q)
        if v == 1: return a
        if v > 0 and rng(a)[0] >= 0:
            # pull out divisible linear parts
            c, t = lin_parts(a)
            ok = {x: k // v for x, k in t if k % v == 0}
            rest = {x: k for x, k in t if k % v}
            r = mklin(c % v, rest)
            if ok or c // v:
                if rng(r)[0] >= 0:
                    return add(mklin(c // v, ok), _div(r, b))
            lo, hi = rng(a)
            if hi < v and lo >= 0: return INT(0)
            if a.op == 'div' and a.a[1].op == 'int': return _div(a.a[0], INT(v * a.a[1].a[0]))
            if a.op == 'lz' and v == 8 and a.a[1] % 8 == 0:
                w = a.a[1] // 8
                b_ = mk('bytes', 'be', w, a.a[0])
                return FIRST(INT(w), lambda i: NOT(EQ(index(SEQ(SUB(b_, INT(0), INT(w))), i), INT(0))))
    return mk('div', a, b)
def div(a, b): return lift('div', _div, a, b)
def _rem(a, b):
    if _bad(a, b): return _bad(a, b)
    if b.op == 'int':
        v = b.a[0]
        if v == 0: return UNK('rem0')
        if a.op == 'int':
            m = abs(a.a[0]) % abs(v)
            return INT(m if a.a[0] >= 0 else -m)
        if v > 0 and rng(a)[0] >= 0:
            if rng(a)[1] < v: return a
            c, t = lin_parts(a)
            r = mklin(c % v, {x: k for x, k in t if k % v})
            if r is not a and rng(r)[0] >= 0: return _rem(r, b)
    return mk('rem', a, b)
def rem(a, b): return lift('rem', _rem, a, b)
def _band(a, b):
    if _bad(a, b): return _bad(a, b)
    if a.op == 'int' and b.op == 'int': return INT(a.a[0] & b.a[0])
    for x, y in ((a, b), (b, a)):
        if x.op == 'int':
            if x.a[0] == 0: return INT(0)
            m = x.a[0]
            if m & (m + 1) == 0 and rng(y)[0] >= 0:
                if rng(y)[1] <= m: return y
                return rem(y, INT(m + 1))
            if m & (m - 1) == 0 and m > 0 and rng(y)[0] >= 0:
                return scale(rem(div(y, x), INT(2)), m)
    if a.id > b.id: a, b = b, a
    return mk('and', a, b)
def band(a, b): return lift('and', _band, a, b)
def _bor(a, b):
    if _bad(a, b): return _bad(a, b)
    if a.op == 'int' and b.op == 'int': return INT(a.a[0] | b.a[0])
    for x, y in ((a, b), (b, a)):
        if x.op == 'int' and x.a[0] == 0: return y
        # disjoint bits: x multiple of 2^k, y < 2^k
        if rng(y)[0] >= 0 and rng(x)[0] >= 0:
            c, t = lin_parts(x)
            g = c
            from math import gcd
            for _, k in t: g = gcd(g, k)
            if x.op == 'int': g = x.a[0]
            if g:
                low = g & -g
                if rng(y)[1] < low: return add(x, y)
    if a.id > b.id: a, b = b, a
    return mk('or', a, b)
def bor(a, b): return lift('or', _bor, a, b)
def _bxor(a, b):
    if _bad(a, b): return _bad(a, b)
    if a.op == 'int' and b.op == 'int': return INT(a.a[0] ^ b.a[0])
    if a.id > b.id: a, b = b, a
    return mk('xor', a, b)
def bxor(a, b): return lift('xor', _bxor, a, b)
def _shl(a, b):
    if _bad(a, b): return _bad(a, b)
    if b.op == 'int': return scale(a, 1 << b.a[0]) if 0 <= b.a[0] < 256 else UNK('shl')
    if a.op == 'int' and a.a[0] == 0: return a
    return mk('shl', a, b)
def shl(a, b): return lift('shl', _shl, a, b)
def _shr(a, b):
    if _bad(a, b): return _bad(a, b)
    if b.op == 'int' and rng(a)[0] >= 0: return div(a, INT(1 << b.a[0]))
    return mk('shr', a, b)
def shr(a, b): return lift('shr', _shr, a, b)
def _pow(a, b):
    if _bad(a, b): return _bad(a, b)
    if a.op == 'int' and b.op == 'int' and 0 <= b.a[0] < 4096: return INT(a.a[0] ** b.a[0])
    return mk('pow', a, b)
def power(a, b): return lift('pow', _pow, a, b)

def CAST(ty, x):
    """value-preserving or modular conversion to integer type ty"""
    lo, hi = RANGES[ty]
    w = WIDTH[ty]
    def f(x):
        if _bad(x): return _bad(x)
        if x is TRUE: return INT(1)
        if x is FALSE: return INT(0)
        a, b = rng(x)
        if a >= lo and b <= hi: return x
        if x.op == 'int':
            v = x.a[0] % (1 << w)
            if v > hi: v -= 1 << w
            return INT(v)
        if x.op in ('cast', 'wrap') and WIDTH[x.a[0]] >= w:
            return CAST(ty, x.a[1])
        return mk('cast', 'isize' if ty == 'isize' else ty.replace('usize', 'u64').replace('isize', 'i64'), x)
    return lift('cast' + ty, f, x)

# ---------------------------------------------------------------- integer atoms
from math import gcd as _gcd
def _norm(l):
    c, t = lin_parts(l)
    g = 0
    for _, k in t: g = _gcd(g, abs(k))
    return c, t, g

def _ge0(l):
    if _bad(l): return _bad(l)
    lo, hi = rng(l)
    if lo >= 0: return TRUE
    if hi < 0: return FALSE
    c, t, g = _norm(l)
    if g > 1:
        l = mklin(c // g, {x: k // g for x, k in t})
        lo, hi = rng(l)
        c, t, _ = _norm(l)
    if hi == 0: return _eq0(l)
    if lo == -1: return NOT(_eq0(add(l, INT(1))))
    if t[0][1] < 0:
        return NOT(_ge0(sub(neg(l), INT(1))))
    return ATOM(mk('ge0', l))
def _eq0(l):
    if _bad(l): return _bad(l)
    lo, hi = rng(l)
    if lo > 0 or hi < 0: return FALSE
    if l.op == 'int': return BOOL(l.a[0] == 0)
    c, t, g = _norm(l)
    if c % g: return FALSE
    if g > 1 or t[0][1] < 0:
        s = g if t[0][1] > 0 else -g
        l = mklin(c // s, {x: k // s for x, k in t})
        c, t, _ = _norm(l)
    if len(t) == 1 and c:
        x = t[0][0]
        if x.op == 'and':
            for p, q in ((x.a[0], x.a[1]), (x.a[1], x.a[0])):
                v = -c // t[0][1]
                if p.op == 'int' and p.a[0] & (p.a[0] - 1) == 0 and p.a[0] == v:
                    return NOT(_eq0(x))       # (q & bit) == bit  <=>  != 0
                if p.op == 'shl' and p.a[0].op == 'int' and p.a[0].a[0] == 1: pass
    if len(t) == 2 and c == 0:
        # (q & (1<<i)) == (1<<i)
        (x, k1), (y, k2) = t
        for x, y in ((x, y), (y, x)):
            if k1 + k2 == 0 and x.op == 'and' and y.op == 'shl' and y.a[0] is INT(1) and y in x.a:
                return NOT(_eq0(x))
            if k1 + k2 == 0 and y.op == 'cast':
                # x == (x as T)  <=>  x fits T;  x == (x as iN) as u64  <=>  x is a sign extension
                tl, th = RANGES[y.a[0]]
                if y.a[1] is x: return AND(GE(x, INT(tl)), LE(x, INT(th)))
                z = y.a[1]
                if z.op == 'cast' and z.a[1] is x and z.a[0][0] == 'i' and tl == 0 and rng(x)[0] >= 0 and rng(x)[1] <= th:
                    h = RANGES[z.a[0]][1]
                    return OR(LE(x, INT(h)), GE(x, INT(th - h)))
    if len(t) == 1 and t[0][0].op == 'rem' and c == 0:
        # x % 2^k == 0 keeps its form; x % 2 relates to x & 1
        pass
    if len(t) == 1 and c == -1 or True:
        # (q >> i) % 2 == 1  <=>  q & (1<<i) != 0
        if len(t) == 1 and t[0][0].op == 'rem' and t[0][0].a[1].op == 'int' and t[0][0].a[1].a[0] == 2:
            y = t[0][0].a[0]
            want = -c
            if y.op == 'shr' and want in (0, 1):
                z = _eq0(band(y.a[0], shl(INT(1), y.a[1])))
                return z if want == 0 else NOT(z)
            if want == 1: return NOT(_eq0(t[0][0]))
    return ATOM(mk('eq0', l))

def GE0(l): return lift('ge0', _ge0, l)
def EQ0(l): return lift('eq0', _eq0, l)
def GE(a, b): return GE0(sub(a, b))
def LE(a, b): return GE0(sub(b, a))
def LT(a, b): return GE0(sub(sub(b, a), INT(1)))
def GT(a, b): return LT(b, a)

INTOPS = {'int', 'lin', 'len', 'cast', 'wrap', 'and', 'or', 'xor', 'shl', 'shr', 'mul', 'div', 'rem', 'pow',
          'first', 'popcnt', 'lz', 'tz', 'bv', 'unle'}
def is_int(n):
    if n.op in INTOPS: return True
    if n.op in ('sym', 'fld', 'idx', 'call', 'phi'):
        if tyrange(n.a[-1]): return True
        return n.op == 'idx' and n.a[0].op in ('bytes', 'hb', 'hex') or n.op == 'call' and n.a[0] in CALL_RANGE
    if n.op == 'fold': return tyrange(n.a[-1]) is not None
    return False

def _EQ(a, b):
    if _bad(a, b): return _bad(a, b)
    if a is b: return TRUE
    if a.op == 'bool' and b.op == 'bool': return BOOL(a is b)
    if is_int(a) or is_int(b):
        if is_int(a) and is_int(b): return _eq0(sub(a, b))
        return ATOM(mk('eq', *sorted((a, b), key=lambda z: z.id)))
    if a.op == 'adt' and b.op == 'adt' and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]: return FALSE
        r = TRUE
        for x, y in zip(a.a[2:], b.a[2:]): r = AND(r, EQ(x, y))
        return r
    if a.op == 'tup' and b.op == 'tup' and len(a.a) == len(b.a):
        r = TRUE
        for x, y in zip(a.a, b.a): r = AND(r, EQ(x, y))
        return r
    if a.op == 'seq' or b.op == 'seq':
        la, lb = LEN(a), LEN(b)
        e = EQ(la, lb)
        if e is FALSE: return FALSE
        if a.op == 'seq' and not a.a: return EQ0(lb)
        if b.op == 'seq' and not b.a: return EQ0(la)
        if is_const_seq(a) and is_const_seq(b): return BOOL(a is b)
        # a choice of whole sequences against a constant: decide each choice
        for x, y in ((a, b), (b, a)):
            if y.op == 'seq' and len(y.a) == 1 and y.a[0].op == 'alt' and is_const_seq(x):
                return lift('EQalt%d' % x.id, lambda z: z if _bad(z) else _EQ(x, z.a[0] if z.op == 'sl' else SEQ(z)), y.a[0].a[0])
    return ATOM(mk('eq', *sorted((a, b), key=lambda z: z.id)))
def EQ(a, b): return lift('EQ', _EQ, a, b)

# ---------------------------------------------------------------- aggregates
ENUMS = {}       # adt key -> number of variants, filled by the interpreter
FIELD_TY = [None]  # callback (ty, vi, i) -> type
STRUCTS = set()

def ADT(key, vi, *f):
    # eta: struct rebuilt from all projections of one opaque value
    if f and key in STRUCTS:
        b = f[0]
        if b.op == 'fld' and b.a[2] == 0 or b.op == 'ite' and b.a[0].op == 'fld' and b.a[0].a[2] == 0 and b.a[1] is TRUE and b.a[2] is FALSE:
            base = (b if b.op == 'fld' else b.a[0]).a[0]
            bt = node_ty(base)
            if bt and bt[0] == 'adt' and bt[1] == key and all(x is FLD(base, 0, i, None) for i, x in enumerate(f)):
                return base
    return mk('adt', key, vi, *f)

def FLD(x, vi, i, ty):
    def f(x):
        if _bad(x): return _bad(x)
        if x.op == 'adt':
            if x.a[1] != vi: return UNDEF
            return x.a[2 + i] if 2 + i < len(x.a) else UNK('fld')
        if x.op == 'tup':
            return x.a[i] if i < len(x.a) else UNK('fld')
        t = ty
        bt = node_ty(x)
        if bt and FIELD_TY[0]:
            t2 = FIELD_TY[0](bt, vi, i)
            if t2 is not None: t = t2
        n = mk('fld', x, vi, i, t)
        return wrapb(n, t)
    return lift('fld%d.%d.%s' % (vi, i, ty), f, x)

def ISV(x, vi, nvar):
    """condition: value x has variant vi"""
    def f(x):
        if _bad(x): return _bad(x)
        if x.op == 'adt': return BOOL(x.a[1] == vi)
        if nvar == 1: return TRUE
        # the last variant is the negation of the others; Option: None is the negation of Some
        if nvar == 2:
            s = ATOM(mk('isv', x, 1))
            return s if vi == 1 else NOT(s)
        if vi < nvar - 1: return ATOM(mk('isv', x, vi))
        r = TRUE
        for j in range(nvar - 1): r = AND(r, NOT(ATOM(mk('isv', x, j))))
        return r
    return lift('isv%d/%d' % (vi, nvar), f, x)

RES = 'core::result::Result'; OPT = 'core::option::Option'; CF = 'core::ops::control_flow::ControlFlow'
def OK(x): return ADT(RES, 0, x)
def ERR(x): return ADT(RES, 1, x)
def SOME(x): return ADT(OPT, 1, x)
NONE = mk('adt', OPT, 0)

# ---------------------------------------------------------------- sequences
def LIT(vals): return mk('lit', tuple(vals))
def ONE(v): return mk('one', v)
def SUB(base, off, n): return mk('sub', base, off, n)
def REP(n, v): return mk('rep', n, v)
def MAPP(n, body): return mk('map', n, body)      # body: SEQ with bound variable
EMPTY = None

def base_len(b):
    op = b.op
    if op == 'bytes': return INT(b.a[1])
    if op == 'hb': return INT(b.a[1])
    if op == 'hex': return scale(LEN(b.a[0]), 2)
    if op == 'arr': return LEN(b.a[0])
    if op == 'call' and b.a[0] == 'str:split': return add(INT(1), mk('call', 'str:count', b.a[1], b.a[2], ('int', 'usize')))
    t = node_ty(b)
    if t and t[0] == 'ref': t = t[2]
    if t and t[0] == 'array':
        c = t[2]
        if isinstance(c, int): return INT(c)
        if isinstance(c, tuple):
            d = dict(c)
            if 'cval' in d: return INT(int(d['cval']))
            if 'cparam' in d: return SYM('const ' + str(d['cparam']), ('int', 'usize'))
    return mk('len', b)

def piece_len(p):
    if p.op == 'lit': return INT(len(p.a[0]))
    if p.op == 'one': return INT(1)
    if p.op == 'sub': return p.a[2]
    if p.op == 'rep': return p.a[0]
    if p.op == 'map':
        l = LEN(p.a[1])
        if l.op == 'int' or bvmax(l) < map_bv(p): return mul(p.a[0], l)
        return mk('call', 'maplen', p, ('int', 'usize'))
    if p.op == 'alt':
        return lift('altlen', lambda s: LEN(s.a[0]), p.a[0])
    if p.op == 'enc': return mk('call', 'enclen', p, ('int', 'usize'))
    if p.op == 'phi': return mk('len', p)
    return mk('call', 'plen', p, ('int', 'usize'))

def bitcount(x):
    """length of a sequence with one element for every set bit of a word"""
    word = None; bits = set(); k = 0
    for p in x.a:
        if p.op != 'alt':
            l = piece_len(p)
            if l.op != 'int': return None
            k += l.a[0]; continue
        d = p.a[0]
        if d.op != 'ite' or d.a[0].op != 'eq0': return None
        a = d.a[0].a[0]
        if a.op == 'rem' and a.a[1] is INT(2):
            w = a.a[0]; m = 1
            if w.op == 'div' and w.a[1].op == 'int': m = w.a[1].a[0]; w = w.a[0]
        elif a.op == 'div' and a.a[1].op == 'int' and rng(a)[1] <= 1:
            w, m = a.a[0], a.a[1].a[0]
        elif a.op == 'and' and any(z.op == 'int' for z in a.a):
            m = a.a[0].a[0] if a.a[0].op == 'int' else a.a[1].a[0]
            w = a.a[1] if a.a[0].op == 'int' else a.a[0]
        else: return None
        if m <= 0 or m & (m - 1) or word not in (None, w): return None
        if d.a[1].op != 'sl' or d.a[2].op != 'sl' or d.a[1].a[0].a or LEN(d.a[2].a[0]) is not INT(1): return None
        word = w; b = m.bit_length() - 1
        if b in bits: return None
        bits.add(b)
    if word is None: return None
    hi = rng(word)[1]
    if rng(word)[0] < 0 or bits != set(range(hi.bit_length())): return None
    return add(mk('popcnt', word, len(bits)), INT(k))

def LEN(x):
    def f(x):
        if _bad(x): return _bad(x)
        if x.op == 'seq':
            if len(x.a) > 7:
                q = bitcount(x)
                if q is not None: return q
            r = INT(0)
            for p in x.a: r = add(r, piece_len(p))
            return r
        if x.op == 'sink': return LEN(x.a[2])
        return base_len(x)
    return lift('len', f, x)

def SEQ(*ps):
    """normalising constructor"""
    out = []
    def push(p):
        if p.op == 'seq':
            for q in p.a: push(q)
            return
        if p.op == 'one' and p.a[0].op == 'int': p = LIT((p.a[0].a[0],))
        if p.op == 'one' and p.a[0].op == 'seq' and len(p.a[0].a) == 1 and p.a[0].a[0].op == 'sub':
            # an element that is a whole sequence itself
            q = p.a[0].a[0]
            if q.a[1] is INT(0) and q.a[0].op in ('idx', 'fld', 'sym') and q.a[2] is LEN(q.a[0]): p = ONE(q.a[0])
        if p.op == 'one' and p.a[0].op == 'idx' and not is_int_bytes_only(p.a[0]):
            p = SUB(p.a[0].a[0], p.a[0].a[1], INT(1))
        if p.op == 'lit' and not p.a[0]: return
        if p.op == 'rep':
            n = p.a[0]
            if n.op == 'int' and n.a[0] <= 4096:
                if n.a[0] == 0: return
                if p.a[1].op == 'int': p = LIT((p.a[1].a[0],) * n.a[0])
                elif n.a[0] <= 64:
                    for _ in range(n.a[0]): push(ONE(p.a[1]))
                    return
        if p.op == 'sub':
            b, o, n = p.a
            if n is INT(0): return
            if b.op == 'seq':
                for q in slice_(b, o, n).a: push(q)
                return
            if b.op == 'bytes':
                x = b.a[2]
                if x.op == 'int' and o.op == 'int' and n.op == 'int':
                    w = b.a[1]
                    by = (x.a[0] % (1 << (8 * w))).to_bytes(w, 'little' if b.a[0] == 'le' else 'big')
                    push(LIT(tuple(by)[o.a[0]:o.a[0] + n.a[0]])); return
                if b.a[1] == 1: push(ONE(CAST('u8', x))); return
        if p.op == 'map':
            n, body = p.a[0], p.a[1]
            if n is INT(0) or not body.a: return
            h = map_bv(p)
            bvn = mk('bv', h)
            if len(body.a) == 1:
                q = body.a[0]
                if q.op == 'sub' and q.a[2] is INT(1) and bvmax(q.a[0]) < h:
                    d = sub(q.a[1], bvn)
                    if bvmax(d) < h:
                        push(SUB(q.a[0], d, n)); return
                # contiguous chunks
                if q.op == 'sub' and q.a[2].op == 'int' and bvmax(q.a[0]) < h:
                    k = q.a[2].a[0]
                    d = sub(q.a[1], scale(bvn, k))
                    if bvmax(d) < h:
                        push(SUB(q.a[0], d, scale(n, k))); return
                if q.op in ('one',) and bvmax(q) < h:
                    push(REP(n, q.a[0])); return
                if q.op == 'lit' and len(q.a[0]) == 1:
                    push(REP(n, INT(q.a[0][0]))); return
                if q.op == 'rep' and bvmax(q) < h:
                    push(REP(mul(n, q.a[0]), q.a[1])); return
            if n is INT(1):
                for q in subst(body, {bvn: INT(0)}).a: push(q)
                return
        if p.op == 'alt':
            m = p.a[0]
            if m.op == 'sl':
                push(m.a[0]); return
        if out:
            l = out[-1]
            if l.op == 'lit' and p.op == 'lit':
                out[-1] = LIT(l.a[0] + p.a[0]); return
            if l.op == 'sub' and p.op == 'sub' and l.a[0] is p.a[0] and add(l.a[1], l.a[2]) is p.a[1]:
                out[-1] = SUB(l.a[0], l.a[1], add(l.a[2], p.a[2])); return
            if l.op == 'rep' and p.op == 'rep' and l.a[1] is p.a[1]:
                out[-1] = REP(add(l.a[0], p.a[0]), l.a[1]); return
            if l.op == 'rep' and p.op == 'sub' and l.a[1] is INT(0):
                # zeros up to the first non-zero element, then the rest: the whole
                k = l.a[0]
                if k is p.a[1] and k.op == 'first':
                    b = p.a[0]
                    want = FIRST(k.a[0], lambda i: NOT(EQ(index(SEQ(SUB(b, INT(0), base_len(b))), i), INT(0))))
                    if want is k:
                        out.pop()
                        push(SUB(b, INT(0), add(k, p.a[2]))); return
        out.append(p)
    for p in ps: push(p)
    if len(out) == 1 and out[0].op == 'sub' and out[0].a[1] is INT(0) and out[0].a[2] is base_len(out[0].a[0]) \
            and out[0].a[0].op not in ('bytes', 'hb', 'hex', 'arr'):
        return out[0].a[0]     # eta
    return mk('seq', *out)

def is_int_bytes_only(n): return False

def as_seq(x):
    """view any sequence-like value as SEQ (opaque bases become one whole SUB piece)"""
    if x.op == 'seq': return x
    if x.op in ('sym', 'fld', 'idx', 'call', 'bytes', 'hb', 'hex', 'arr', 'phi'):
        return mk('seq', SUB(x, INT(0), base_len(x)))
    return x

def pieces(x):
    x = as_seq(x)
    return x.a if x.op == 'seq' else (mk('junk', x),)

def CONCAT(*xs):
    def f(*xs):
        b = _bad(*xs)
        if b: return b
        ps = []
        for x in xs: ps.extend(pieces(x))
        return SEQ(*ps)
    return f(*xs) if not any(x.op == 'ite' for x in xs) else lift('concat', f, *xs)

def seq_merge(c, s, t):
    if s is t: return s
    a, b = list(s.a), list(t.a)
    pre = []
    while a and b and a[0] is b[0]:
        pre.append(a.pop(0)); b.pop(0)
    # common prefix of literals
    if a and b and a[0].op == 'lit' and b[0].op == 'lit':
        x, y = a[0].a[0], b[0].a[0]
        k = 0
        while k < len(x) and k < len(y) and x[k] == y[k]: k += 1
        if k and (k == len(x) or k == len(y)):
            pre.append(LIT(x[:k]))
            a[0:1] = [LIT(x[k:])] if k < len(x) else []
            b[0:1] = [LIT(y[k:])] if k < len(y) else []
    suf = []
    while a and b and a[-1] is b[-1]:
        suf.insert(0, a.pop()); b.pop()
    def alt_of(ps):
        if len(ps) == 1 and ps[0].op == 'alt': return ps[0].a[0]
        return mk('sl', mk('seq', *ps))
    # same number of "one" pieces: merge element-wise (arrays of equal shape)
    if len(a) == len(b) and a and all(x.op in ('one', 'lit') and y.op in ('one', 'lit') for x, y in zip(a, b)):
        ea = [v for x in a for v in elems(x)]; eb = [v for x in b for v in elems(x)]
        if len(ea) == len(eb):
            return SEQ(*pre, *[ONE(ITE(c, x, y)) for x, y in zip(ea, eb)], *suf)
    m = ITE(c, alt_of(a), alt_of(b))
    return SEQ(*pre, mk('alt', m), *suf)

def elems(p):
    if p.op == 'lit': return [INT(v) for v in p.a[0]]
    if p.op == 'one': return [p.a[0]]
    raise ValueError

def bvmax(n):
    r = n._bv
    if r is None:
        if n.op == 'bv': r = n.a[0]
        elif n.op == 'map': r = max([0, bvmax(n.a[0])] + [0])
        elif n.op in ('first', 'any', 'fold'): r = bvmax(n.a[0])
        else: r = 0
        if n.op != 'bv':
            # free bound variables: inner binders bind their own level
            own = None
            if n.op == 'map': own = n.a[1]
            elif n.op in ('first', 'any'): own = n.a[1]
            if own is not None:
                # all bvs below binder level are free outside
                r = max(r, _freebv(own, binder_level(own)))
            else:
                for k in kids(n): r = max(r, bvmax(k))
        n._bv = r
    return r

@lru_cache(maxsize=None)
def bvset(n):
    """free bound-variable levels in n"""
    if n.op == 'bv': return frozenset([n.a[0]])
    s = frozenset()
    if n.op in ('map', 'first', 'any'):
        s = bvset(n.a[0]) | (bvset(n.a[1]) - {n.a[2]} if len(n.a) > 2 else bvset(n.a[1]))
        return s
    for k in kids(n): s |= bvset(k)
    return s
def bvmax(n):
    s = bvset(n)
    return max(s) if s else 0
def binder_level(body):
    s = allbv(body)
    return (max(s) if s else 0)
@lru_cache(maxsize=None)
def allbv(n):
    """highest bound-variable level occurring anywhere (free or bound) in n"""
    if n.op == 'bv': return frozenset([n.a[0]])
    s = frozenset()
    for k in kids(n): s |= allbv(k)
    if n.op in ('map', 'first', 'any') and len(n.a) > 2: s |= frozenset([n.a[2]])
    return s
def map_bv(p): return p.a[2]

def MAP(n, var, body):
    """sequence concatenation of body for var in 0..n"""
    body = as_seq(body)
    if body.op != 'seq': return mk('map', n, body, 0)
    s = allbv(body)
    h = (max(s) if s else 0) + 1
    b2 = subst(body, {var: mk('bv', h)})
    if b2.op != 'seq': b2 = as_seq(b2)
    return mk('map', n, b2, h)

_fv = [0]
def fresh_index(name='i'):
    _fv[0] += 1
    return mk('sym', '%s!%d' % (name, _fv[0]), ('int', 'usize'))

def FIRST(n, pred):
    """first i in 0..n with pred(i), or n"""
    v = fresh_index()
    c = pred(v)
    if c is TRUE: return ITE(GT(n, INT(0)), INT(0), n)
    if c is FALSE: return n
    s = allbv(c); h = (max(s) if s else 0) + 1
    return mk('first', n, subst(c, {v: mk('bv', h)}), h)
def ANY(n, v, c):
    """condition: some v in 0..n satisfies c"""
    if c is FALSE: return FALSE
    if c is TRUE: return GT(n, INT(0))
    s = allbv(c); h = (max(s) if s else 0) + 1
    c2 = subst(c, {v: mk('bv', h)})
    if h not in bvset(c2): return AND(GT(n, INT(0)), c)
    return ATOM(mk('any', n, c2, h))

def slice_(x, off, n):
    """n elements of x from off"""
    r = slice0(x, off, n)
    if r.op == 'unk' and x.op == 'seq':
        al = [p for p in x.a if p.op == 'alt']
        if 0 < len(al) <= 3:
            # one case per choice
            q = lift('slice alt%d.%d.%d' % (x.id, off.id, n.id), lambda z: slice_(as_seq(SEQ(*[y for p in x.a for y in (z.a[0].a if p is al[0] else (p,))])), off, n) if z.op == 'sl' else z, al[0].a[0])
            if not has_unk(q): return q
    return r
def slice0(x, off, n):
    if x.op == 'ite' or off.op == 'ite' or n.op == 'ite': return lift('slice', slice_, x, off, n)
    x = as_seq(x)
    if x.op != 'seq': return UNK('slice of ' + x.op)
    if n is INT(0): return mk('seq')
    pos = INT(0)
    out = []
    need_off = off; remaining = n
    ps = list(x.a)
    started = False
    for j, p in enumerate(ps):
        l = piece_len(p)
        if not started:
            d = sub(need_off, pos)              # offset inside this piece
            # does the slice start at or after the end of this piece?
            if d is l or (d.op == 'int' and l.op == 'int' and d.a[0] >= l.a[0]) or (rng(sub(d, l))[0] >= 0 and not (l.op == 'int' and l.a[0] == 0 and d is INT(0))):
                pos = add(pos, l); continue
            started = True
        else:
            d = INT(0)
        avail = sub(l, d)
        if avail is remaining or rng(sub(remaining, avail))[0] >= 0:
            take = avail
        elif rng(sub(avail, remaining))[0] >= 0:
            take = remaining
        else:
            # last piece: assume in bounds
            if j == len(ps) - 1: take = remaining
            elif len(ps) - j <= 70 and l.op == 'int':
                c = GE(remaining, avail)
                rest = mk('seq', *ps[j + 1:])
                q1 = piece_slice(p, d, avail, l)
                q2 = mk('seq') if avail is INT(1) else piece_slice(p, d, remaining, l)
                if q1 is None or q2 is None or c.op != 'ite': return UNK('slice bounds')
                if q2.op != 'seq': q2 = mk('seq', q2)
                tl = constrain(slice_(rest, INT(0), sub(remaining, avail)), c)
                return ITE(c, CONCAT(*[mk('seq', o) for o in out], mk('seq', q1), tl), CONCAT(*[mk('seq', o) for o in out], q2))
            else: return UNK('slice bounds')
        q = piece_slice(p, d, take, l)
        if q is None: return UNK('slice piece ' + p.op)
        out.append(q)
        remaining = sub(remaining, take)
        pos = add(pos, l)
        if remaining is INT(0): break
    if remaining is not INT(0): return UNK('slice overrun')
    return as_seq(SEQ(*out))

def piece_slice(p, d, take, l):
    if d is INT(0) and take is l: return p
    if p.op == 'lit':
        if d.op == 'int' and take.op == 'int': return LIT(p.a[0][d.a[0]:d.a[0] + take.a[0]])
        if len(set(p.a[0])) == 1: return REP(take, INT(p.a[0][0]))
        return None
    if p.op == 'sub': return SUB(p.a[0], add(p.a[1], d), take)
    if p.op == 'rep': return REP(take, p.a[1])
    if p.op == 'map':
        bl = LEN(p.a[1])
        bvn = mk('bv', p.a[2])
        if bl is INT(1):
            v = fresh_index()
            return MAP(take, v, subst(p.a[1], {bvn: add(v, d)}))
        if bl.op == 'int':
            k = bl.a[0]
            q = div(d, INT(k)); r = rem(d, INT(k))
            if r is INT(0) and rem(take, INT(k)) is INT(0):
                v = fresh_index()
                return MAP(div(take, INT(k)), v, subst(p.a[1], {bvn: add(v, q)}))
            if r.op == 'int' and take.op == 'int' and r.a[0] + take.a[0] <= k:
                return slice_(subst(p.a[1], {bvn: q}), r, take)
        return None
    if p.op == 'alt' and d.op != 'ite' and take.op != 'ite':
        # the same window of every alternative
        m = lift('altslice%d.%d' % (d.id, take.id), lambda z: alt_leaf(slice_(z.a[0], d, take)), p.a[0])
        if any(z.op != 'sl' for z in leaves(m)): return None
        return m.a[0].a[0] if m.op == 'sl' and len(m.a[0].a) == 1 else mk('alt', m)
    return None
def alt_leaf(z):
    z = as_seq(z)
    return mk('sl', z) if z.op == 'seq' else UNK('slice of alternative')

def index(x, i, ty=None):
    def f(x, i):
        b = _bad(x, i)
        if b: return b
        if x.op != 'seq':
            if x.op == 'arr': return arr_index(x, i, ty)
            if x.op == 'sink': return index(x.a[2], i, ty)
            return mkidx(x, i, ty)
        if len(x.a) == 1 and x.a[0].op == 'sub':
            p = x.a[0]
            return index(p.a[0], add(p.a[1], i), ty) if p.a[0].op in ('arr', 'seq') else mkidx(p.a[0], add(p.a[1], i), ty)
        s = slice_(x, i, INT(1))
        if s.op != 'seq': return s if s.op == 'unk' else mkidx(s, INT(0), ty)
        if len(s.a) != 1: return UNK('index')
        p = s.a[0]
        if p.op == 'lit': return INT(p.a[0][0])
        if p.op == 'one': return p.a[0]
        if p.op == 'rep': return p.a[1]
        if p.op == 'sub':
            return index(p.a[0], p.a[1], ty) if p.a[0].op in ('arr', 'seq') else mkidx(p.a[0], p.a[1], ty)
        if p.op == 'map':
            r = subst(p.a[1], {mk('bv', p.a[2]): INT(0)})
            return index(r, INT(0), ty)
        if p.op == 'alt': return lift('index alt%s' % (ty,), lambda z: index(SEQ(*z.a[0].a), INT(0), ty) if z.op == 'sl' else z, p.a[0])
        return UNK('index of ' + p.op)
    return lift('index%s' % (ty,), f, x, i)

def mkidx(b, i, ty):
    if b.op in ('bytes', 'hb', 'hex'): ty = ('int', 'u8')
    bt = node_ty(b)
    if bt:
        if bt[0] == 'ref': bt = bt[2]
        if bt[0] in ('array', 'slice'): ty = bt[1]
        elif bt[0] == 'adt' and bt[1].endswith('Vec') and bt[2]: ty = bt[2][0]
    n = mk('idx', b, i, ty)
    return wrapb(n, ty)

_arrmemo = {}
def arr_index(x, i, ty):
    k = (x, i)
    r = _arrmemo.get(k)
    if r is None:
        r = index(x.a[0], i, ty)
        _arrmemo[k] = r
    return r

def store_at(x, off, n, new):
    """x with the n elements from off replaced by new"""
    if x.op == 'ite' or off.op == 'ite' or n.op == 'ite': return lift('store_at', lambda x, off, n, w: store_at(x, off, n, new), x, off, n, new) if new.op != 'ite' else lift('store_at', store_at, x, off, n, new)
    x = as_seq(x)
    L = LEN(x)
    a = slice_(x, INT(0), off) if off is not INT(0) else mk('seq')
    end = add(off, n)
    restn = sub(L, end)
    b = slice_(x, end, restn) if restn is not INT(0) else mk('seq')
    if a.op == 'unk': return a
    if b.op == 'unk': return b
    return as_seq(CONCAT(a, new, b))

def BYTES(order, width, x):
    return lift('by%s%d' % (order, width), lambda x: _bad(x) or SEQ(SUB(mk('bytes', order, width, x), INT(0), INT(width))), x) \
        if x.op != 'ite' else SEQ(SUB(mk('bytes', order, width, x), INT(0), INT(width)))

def UNLE(order, width, s, signed=False):
    s = as_seq(s)
    if s.op == 'seq':
        if len(s.a) == 1:
            p = s.a[0]
            if p.op == 'sub' and p.a[0].op == 'bytes' and p.a[0].a[0] == order and p.a[0].a[1] == width and p.a[1] is INT(0) and p.a[2] is INT(width):
                return p.a[0].a[2]
        if is_const_seq(s) and const_len(s) == width:
            by = bytes(v for p in s.a for v in p.a[0])
            return INT(int.from_bytes(by, 'little' if order == 'le' else 'big'))
        if width == 1 and len(s.a) == 1 and s.a[0].op == 'one': return s.a[0].a[0]
    elif _bad(s): return _bad(s)
    return mk('unle', order, width, s)

# ---------------------------------------------------------------- substitution / rebuild
def rebuild(n, a):
    op = n.op
    if op == 'lin':
        r = INT(a[0])
        for t, k in a[1]: r = add(r, scale(t, k))
        return r
    if op == 'ite':
        c = a[0]
        # the atom may have been rewritten to a condition
        return ITE(c, a[1], a[2])
    if op == 'eq0': return EQ0(a[0])
    if op == 'ge0': return GE0(a[0])
    if op == 'eq': return EQ(a[0], a[1])
    if op == 'seq': return as_seq(SEQ(*a))
    if op == 'sub': return mk('sub', *a) if a[0].op not in ('ite',) else mk('sub', *a)
    if op == 'adt': return ADT(*a)
    if op == 'mul': return mul(*a)
    if op == 'div': return div(*a)
    if op == 'rem': return rem(*a)
    if op == 'and': return band(*a)
    if op == 'or': return bor(*a)
    if op == 'xor': return bxor(*a)
    if op == 'shl': return shl(*a)
    if op == 'shr': return shr(*a)
    if op == 'pow': return power(*a)
    if op == 'len': return LEN(a[0])
    if op == 'cast': return CAST(a[0], a[1])
    if op == 'fld':
        r = FLD(a[0], a[1], a[2], a[3])
        return r
    if op == 'idx': return index(a[0], a[1], a[2])
    if op == 'isv':
        x = a[0]
        if x.op in ('adt', 'ite'):
            return lift('isvx%d' % a[1], lambda x: BOOL(x.a[1] == a[1]) if x.op == 'adt' else ATOM(mk('isv', x, a[1])), x)
        return ATOM(mk('isv', *a))
    if op == 'unle': return UNLE(*a)
    if op == 'call' and a[0] in CALL_NORM: return CALL_NORM[a[0]](*a[1:])
    return mk(op, *a)

CALL_NORM = {}
BOOLATOM = {'eq0', 'ge0', 'eq', 'isv', 'any', 'fail', 'bcall'}

def subst(n, m):
    memo = {}
    def go(x):
        if isinstance(x, tuple): return tuple(go(y) for y in x)
        if not isinstance(x, Node): return x
        r = m.get(x)
        if r is not None: return r
        r = memo.get(x.id)
        if r is not None: return r
        if not x.a: r = x
        else:
            a = tuple(go(y) for y in x.a)
            if x.op == 'ite':
                at = x.a[0]
                if at in m: a = (m[at],) + a[1:]
                elif a[0] is at: a = (ATOM(at),) + a[1:]
                elif a[0].op not in ('ite', 'bool', 'unk', 'undef'):
                    a = (ATOM(a[0]),) + a[1:]
                r = x if (a[0].op == 'ite' and a[0].a[0] is at and a[1] is x.a[1] and a[2] is x.a[2]) else ITE(a[0] if a[0].op in ('ite', 'bool') else a[0], a[1], a[2])
            elif a == x.a: r = x
            else: r = rebuild(x, a)
            if x.op in BOOLATOM and r.op == 'ite' and r.a[1] is TRUE and r.a[2] is FALSE and r.a[0] is x: r = x
        memo[x.id] = r
        return r
    return go(n)

def occurs(n, x):
    seen = set()
    st = [n]
    while st:
        y = st.pop()
        if y is x: return True
        if y.id in seen: continue
        seen.add(y.id)
        st.extend(kids(y))
    return False

def find_ops(n, ops):
    seen = set(); out = []
    st = [n]
    while st:
        y = st.pop()
        if y.id in seen: continue
        seen.add(y.id)
        if y.op in ops: out.append(y)
        st.extend(kids(y))
    return out

def has_unk(n):
    r = n._unk
    if r is None:
        r = n.op in ('unk', 'junk', 'phi') or any(has_unk(k) for k in kids(n))
        n._unk = r
    return r

# ---------------------------------------------------------------- display
def tyname(t):
    if not isinstance(t, tuple): return str(t)
    if t[0] == 'adt': return t[1].split('::')[-1] + ('<' + ','.join(tyname(x) for x in t[2]) + '>' if t[2] else '')
    if t[0] in ('int', 'param'): return str(t[1])
    if t[0] == 'ref': return '&' + tyname(t[2])
    if t[0] == 'array': return '[' + tyname(t[1]) + ';' + str(dict(t[2]).get('cval', '?') if isinstance(t[2], tuple) else t[2]) + ']'
    if t[0] == 'slice': return '[' + tyname(t[1]) + ']'
    return str(t[0])

FIELD_NAME = [None]
def show(n, d=0):
    if not isinstance(n, Node):
        return str(n)
    if d > 14: return '…'
    s = lambda x: show(x, d + 1)
    op = n.op; a = n.a
    if op == 'int': return str(a[0])
    if op == 'bool': return str(a[0]).lower()
    if op == 'sym': return str(a[0])
    if op == 'fld':
        nm = FIELD_NAME[0](node_ty(a[0]), a[1], a[2]) if FIELD_NAME[0] else None
        return s(a[0]) + '.' + (nm or ('%d' % a[2] if a[1] == 0 else '%d.%d' % (a[1], a[2])))
    if op == 'idx': return s(a[0]) + '[' + s(a[1]) + ']'
    if op == 'len': return 'len(' + s(a[0]) + ')'
    if op == 'lin':
        t = ' + '.join((s(x) if k == 1 else '%d*%s' % (k, s(x))) for x, k in a[1])
        return '(' + t + (' + %d' % a[0] if a[0] else '') + ')'
    if op == 'ite':
        if a[1] is TRUE and a[2] is FALSE: return s(a[0])
        if a[1] is FALSE and a[2] is TRUE: return '!' + s(a[0])
        return 'if(%s ? %s : %s)' % (s(a[0]), s(a[1]), s(a[2]))
    if op == 'eq0': return '(%s == 0)' % s(a[0])
    if op == 'ge0': return '(%s >= 0)' % s(a[0])
    if op == 'eq': return '(%s == %s)' % (s(a[0]), s(a[1]))
    if op == 'isv': return '%s is #%d' % (s(a[0]), a[1])
    if op == 'adt': return a[0].split('::')[-1] + '#%d' % a[1] + '{' + ', '.join(s(x) for x in a[2:]) + '}'
    if op == 'tup': return '(' + ', '.join(s(x) for x in a) + ')'
    if op == 'seq': return '[' + ' | '.join(s(x) for x in a) + ']'
    if op == 'lit':
        v = a[0]
        if v and all(isinstance(x, int) and 32 <= x < 127 for x in v): return repr(bytes(v).decode())
        if len(v) > 8 and len(set(v)) == 1: return '%d×%d' % (v[0], len(v))
        return 'lit' + str(list(v))
    if op == 'one': return 'byte(' + s(a[0]) + ')'
    if op == 'sub':
        if a[0].op == 'bytes' and a[1] is INT(0) and a[2] is INT(a[0].a[1]): return '%s%d(%s)' % (a[0].a[0], a[0].a[1], s(a[0].a[2]))
        return 'raw(%s[%s..+%s])' % (s(a[0]), s(a[1]), s(a[2]))
    if op == 'rep': return 'rep(%s × %s)' % (s(a[1]), s(a[0]))
    if op == 'map': return 'each#%d(%s: %s)' % (a[2], s(a[0]), s(a[1]))
    if op == 'bv': return 'i%d' % a[0]
    if op == 'alt': return 'alt(' + s(a[0]) + ')'
    if op == 'sl': return s(a[0])
    if op == 'enc': return 'enc_%s<%s>(%s)' % (a[0], tyname(a[1]), s(a[2]))
    if op == 'hb': return 'hash%d(%s)' % (a[1], s(a[2]))
    if op == 'bytes': return '%s%d(%s)' % (a[0], a[1], s(a[2]))
    if op == 'call': return a[0] + '(' + ', '.join(s(x) for x in a[1:-1]) + ')'
    if op == 'clo': return '<closure>'
    if op == 'mref': return '&mut'
    if op == 'unk': return '?<%s>' % a[0]
    return op + '(' + ', '.join(show(x, d + 1) if isinstance(x, Node) else str(x)[:40] for x in a) + ')'
