"""Text functions of the standard library as exact terms.

Every function is either reduced on the pieces of the text it is given, or kept as a call
`str:<function>` whose meaning is the one defined here (and used when a difference between two
summaries has to be witnessed)."""
import re, unicodedata
import terms as T
from terms import *
import models as M
from models import H, SOME, NONE, OK, ERR, bcall, strip, pat_seq, find_char, substr, is_strt, USIZE, STR

WS = ''.join(map(chr, [9, 10, 11, 12, 13, 32, 0x85, 0xa0, 0x1680] + list(range(0x2000, 0x200b)) + [0x2028, 0x2029, 0x202f, 0x205f, 0x3000]))
VSTR = ('adt', 'alloc::vec::Vec', (STR,))
VCHAR = ('adt', 'alloc::vec::Vec', (('char',),))

CIDX = ('tuple', (USIZE, ('char',)))
class NoValue(Exception): pass
def u(b):
    try: return bytes(b).decode('utf-8')
    except (UnicodeDecodeError, ValueError): raise NoValue()
def asc(s):
    if not s.isascii(): raise NoValue()
    return s
def enc(s): return list(s.encode())
def pos(f):
    def g(s, p):
        i = f(u(s), u(p))
        if i < 0: raise NoValue()
        return len(u(s)[:i].encode())
    return g
def radix_ok(s, r, t):
    s = u(s); lo, hi = T.RANGES[t]
    d = '0123456789abcdefghijklmnopqrstuvwxyz'[:r]
    m = re.fullmatch(r'([+-]?)([0-9a-zA-Z]+)', s)
    if not m or not s.isascii() or any(c.lower() not in d for c in m.group(2)): return None
    if m.group(1) == '-' and lo == 0: return None
    v = int(m.group(2), r) * (-1 if m.group(1) == '-' else 1)
    return v if lo <= v <= hi else None
def unradix(s, r, t):
    v = radix_ok(s, r, t)
    if v is None: raise NoValue()
    return v
def split_py(s, p):
    s, p = u(s), u(p)
    if not p: raise NoValue()
    return [enc(x) for x in s.split(p)]
def trimm(s, p, l, r):
    s, p = u(s), u(p)
    if not p: return enc(s)
    while l and s.startswith(p): s = s[len(p):]
    while r and s.endswith(p): s = s[:-len(p)]
    return enc(s)

# meaning of str:<name>; texts are lists of bytes
FN = {
    'trim': lambda s: enc(u(s).strip(WS)), 'trim_start': lambda s: enc(u(s).lstrip(WS)), 'trim_end': lambda s: enc(u(s).rstrip(WS)),
    'trim_matches': lambda s, p: trimm(s, p, True, True), 'trim_start_matches': lambda s, p: trimm(s, p, True, False), 'trim_end_matches': lambda s, p: trimm(s, p, False, True),
    'to_ascii_lowercase': lambda s: [c + 32 if 65 <= c <= 90 else c for c in s], 'to_ascii_uppercase': lambda s: [c - 32 if 97 <= c <= 122 else c for c in s],
    'to_lowercase': lambda s: enc(asc(u(s)).lower()), 'to_uppercase': lambda s: enc(asc(u(s)).upper()),
    'find': pos(str.find), 'rfind': pos(str.rfind), 'count': lambda s, p: u(s).count(u(p)) if p else (_ for _ in ()).throw(NoValue()),
    'split': split_py, 'rsplit': lambda s, p: split_py(s, p)[::-1],
    'splitn': lambda s, n, p: [enc(x) for x in u(s).split(u(p), n - 1)] if n > 0 and p else [],
    'rsplitn': lambda s, n, p: [enc(x) for x in u(s).rsplit(u(p), n - 1)][::-1] if n > 0 and p else [],
    'split_terminator': lambda s, p: [enc(x) for x in (lambda q: q[:-1] if q and not q[-1] else q)(u(s).split(u(p)))],
    'split_whitespace': lambda s: [enc(x) for x in re.split('[%s]+' % re.escape(WS), u(s).strip(WS)) if x], 'split_ascii_whitespace': lambda s: [enc(x) for x in re.split('[\t\n\x0c\r ]+', u(s)) if x],
    'lines': lambda s: [enc(x[:-1] if x.endswith('\r') else x) for x in (lambda q: q[:-1] if q and not q[-1] else q)(u(s).split('\n'))],
    'replace': lambda s, p, q: enc(u(s).replace(u(p), u(q))) if p else (_ for _ in ()).throw(NoValue()),
    'replacen': lambda s, p, q, n: enc(u(s).replace(u(p), u(q), n)) if p else (_ for _ in ()).throw(NoValue()),
    'chars': lambda s: [ord(c) for c in u(s)], 'repeat': lambda s, n: list(s) * n if len(s) * n < 100000 else (_ for _ in ()).throw(NoValue()),
    'char_indices': lambda s: [('tup', [len(u(s)[:i].encode()), ord(c)]) for i, c in enumerate(u(s))],
    'charoff': lambda s, i: len(u(s)[:i].encode()),
    'unradix': unradix, 'lossy': lambda s: enc(bytes(s).decode('utf-8', 'replace')), 'rev': lambda s: enc(u(s)[::-1]),
}
def cat(f, g):
    """a class of characters: ASCII by f, others by general category g, when that decides"""
    def h(c):
        if c < 128: return f(chr(c))
        k = unicodedata.category(chr(c))
        r = g(k, c)
        if r is None: raise NoValue()
        return r
    return h
CLS = {
    'is_numeric': cat(str.isdigit, lambda k, c: k in ('Nd', 'Nl', 'No')),
    'is_alphabetic': cat(str.isalpha, lambda k, c: True if k[0] == 'L' or k == 'Nl' else None if k[0] in 'MS' else False),
    'is_alphanumeric': cat(str.isalnum, lambda k, c: True if k[0] in 'LN' else None if k[0] in 'MS' else False),
    'is_whitespace': lambda c: chr(c) in WS,
    'is_control': lambda c: unicodedata.category(chr(c)) == 'Cc',
    'is_lowercase': cat(str.islower, lambda k, c: True if k == 'Ll' else False if k in ('Lu', 'Lt') or k[0] in 'NPZC' else None),
    'is_uppercase': cat(str.isupper, lambda k, c: True if k == 'Lu' else False if k in ('Ll', 'Lt') or k[0] in 'PZC' else None),
}
# truth of str:<name>
BF = {
    **{'chr:' + k: f for k, f in CLS.items()},
    'contains': lambda s, p: u(p) in u(s), 'ends_with': lambda s, p: bytes(s).endswith(bytes(p)), 'starts_with': lambda s, p: bytes(s).startswith(bytes(p)),
    'eq_ignore_ascii_case': lambda a, b: FN['to_ascii_lowercase'](a) == FN['to_ascii_lowercase'](b), 'is_ascii': lambda s: all(c < 128 for c in s),
    'isradix': lambda s, r, t: radix_ok(s, r, t) is not None,
}

def const(x):
    if isinstance(x, str): return x
    if x.op == 'int': return x.a[0]
    if x.op == 'seq' and is_const_seq(x): return [v for p in x.a for v in p.a[0]]
    return None
def back(v, ty):
    if isinstance(v, int): return INT(v)
    if isinstance(v, tuple): return mk('tup', *[INT(x) for x in v[1]])
    if ty[0] == 'adt' and ty[2] == (CIDX,): return as_seq(SEQ(*[ONE(back(x, CIDX)) for x in v]))
    if ty == VSTR: return as_seq(SEQ(*[ONE(back(x, STR)) for x in v]))
    if ty == VCHAR: return as_seq(SEQ(*[ONE(INT(x)) for x in v]))
    return as_seq(SEQ(LIT(tuple(v)))) if v else mk('seq')
def fn(name, ty, *args):
    """the text function applied to terms"""
    if any(isinstance(a, Node) and a.op == 'ite' for a in args):
        return lift('str:%s:%s' % (name, '|'.join(a if isinstance(a, str) else '' for a in args)), lambda *z: fn1(name, ty, args, z), *[a for a in args if isinstance(a, Node)])
    return fn1(name, ty, args, [a for a in args if isinstance(a, Node)])
def refill(args, z):
    z = list(z)
    return [a if isinstance(a, str) else z.pop(0) for a in args]
def fn1(name, ty, args, z):
    args = refill(args, z)
    for a in args:
        if isinstance(a, Node) and a.op in ('unk', 'undef'): return a
    cs = [const(a) for a in args]
    if all(c is not None for c in cs):
        try: return back(FN[name](*cs), ty)
        except NoValue: pass
    r = mk('call', 'str:' + name, *args, ty)
    return as_seq(r) if ty == STR else r
def truth(name, *args):
    nodes = [a for a in args if isinstance(a, Node)]
    def f(*z):
        zz = refill(args, z)
        for a in z:
            if a.op in ('unk', 'undef'): return a
        cs = [const(a) for a in zz]
        if all(c is not None for c in cs):
            try: return BOOL(BF[name](*cs))
            except NoValue: pass
        return bcall('str:' + name, *zz)
    if any(a.op == 'ite' for a in nodes): return lift('strb:%s:%s' % (name, '|'.join(a if isinstance(a, str) else '' for a in args)), f, *nodes)
    return f(*nodes)

def seq(v): return v if v.op in ('ite', 'unk', 'undef') else as_seq(v)
def isstr(cx): return cx.key.startswith(('core::str::', 'alloc::str::', 'alloc::string::'))
def smodel(*names):
    def d(f):
        for n in names:
            old = H.get(n)
            def g(cx, old=old, f=f):
                if isstr(cx):
                    r = f(cx)
                    if r is not None: return r
                return old(cx) if old else None
            H[n] = g
        return f
    return d
def pat(cx, i):
    """a single text pattern (a character or a text), or None"""
    v = cx.v(i)
    if v.op in ('clo', 'fnv'): return None
    if v.op == 'ref' or v.op == 'mref': return None
    if v.op == 'seq' and not (is_const_seq(v) or v.op == 'seq'): return None
    t = None
    for x in reversed(cx.targs or []):
        if isinstance(x, tuple) and x and x[0] not in ('region', 'lt'): t = strip(x); break
    if t and t[0] in ('array', 'slice') or t and t[0] == 'ref' and strip(t[2])[0] in ('array', 'slice'): return None
    return pat_seq(cx, i)
def one_of(cx, i):
    return None

def known(s, ch):
    """text certainly made of pieces whose characters are known not to include white space"""
    return s.op == 'seq' and all(M.nochar(p, c) for p in s.a for c in ch)
SPACES = (9, 10, 11, 12, 13, 32)
def dense(p):
    """piece of at least one character, none of them white space"""
    if p.op == 'lit': return not any(c in SPACES or c >= 0x80 for c in p.a[0])
    if p.op == 'sub' and p.a[0].op == 'hex': return True
    if p.op == 'sub' and p.a[0].op == 'call' and p.a[0].a[0] in ('dec', 'uint::dec'): return True
    return False

@smodel('trim', 'trim_start', 'trim_end')
def _(cx):
    def f(s):
        s = seq(s)
        if s.op == 'seq' and all(dense(p) for p in s.a): return s
        return fn(cx.name, STR, s)
    return lift_str(cx, f, cx.v(0))
def lift_str(cx, f, v):
    return M.LS('str%d' % M.fresh_n(), f, v) if v.op == 'ite' else f(v)

@smodel('to_ascii_lowercase', 'to_ascii_uppercase', 'to_lowercase', 'to_uppercase')
def _(cx): return fn(cx.name, STR, seq(cx.v(0)))
@smodel('trim_matches', 'trim_start_matches', 'trim_end_matches')
def _(cx):
    p = pat(cx, 1)
    return None if p is None else fn(cx.name, STR, seq(cx.v(0)), p)
@smodel('ends_with', 'contains')
def _(cx):
    p = pat(cx, 1)
    if p is None: return None
    s = seq(cx.v(0))
    if cx.name == 'contains' and s.op == 'seq' and is_const_seq(p) and const_len(p) == 1:
        r = find_char(s, p.a[0].a[0][0])
        if r: return BOOL(r[0] == 'at')
        return bcall('hasch', s, INT(p.a[0].a[0][0]))
    return truth(cx.name, s, p)
@smodel('eq_ignore_ascii_case')
def _(cx): return truth('eq_ignore_ascii_case', seq(cx.v(0)), seq(cx.v(1)))
@smodel('is_ascii')
def _(cx):
    s = seq(cx.v(0))
    if s.op == 'seq' and M.ascii_only(s): return TRUE
    return truth('is_ascii', s)
@smodel('strip_suffix')
def _(cx):
    p = pat(cx, 1)
    s = seq(cx.v(0))
    if p is None or s.op == 'ite' or p.op == 'ite': return None
    c = truth('ends_with', s, p)
    n = sub(LEN(s), LEN(p))
    return ITE(c, SOME(fn_sub(s, INT(0), n)), NONE)
def fn_sub(s, o, n):
    c = const(s); a, b = const(o), const(n)
    if c is not None and isinstance(a, int) and isinstance(b, int): return back(c[a:a + b], STR)
    return substr(s, o, n)
@smodel('find', 'rfind')
def _(cx):
    s = seq(cx.v(0)); p = pat(cx, 1)
    if p is None or s.op == 'ite' or p.op == 'ite': return None
    if is_const_seq(p) and const_len(p) == 1:
        r = find_char(s, p.a[0].a[0][0])
        if r and r[0] == 'none': return NONE
        if r and cx.name == 'find': return SOME(LEN(r[1]))
        c = bcall('hasch', s, INT(p.a[0].a[0][0]))
        if cx.name == 'find': return ITE(c, SOME(mk('call', 'findch', s, INT(p.a[0].a[0][0]), USIZE)), NONE)
    else: c = truth('contains', s, p)
    return ITE(c, SOME(fn(cx.name, USIZE, s, p)), NONE)
@smodel('rsplit_once')
def _(cx):
    s = seq(cx.v(0)); p = pat(cx, 1)
    if p is None or s.op == 'ite' or p.op == 'ite': return None
    c = bcall('hasch', s, INT(p.a[0].a[0][0])) if is_const_seq(p) and const_len(p) == 1 else truth('contains', s, p)
    if s.op == 'seq' and is_const_seq(p) and const_len(p) == 1:
        r = find_char(s, p.a[0].a[0][0])
        if r and r[0] == 'none': return NONE
        if r and r[0] == 'at':
            r2 = find_char(r[2], p.a[0].a[0][0])
            if r2 and r2[0] == 'none': return SOME(mk('tup', r[1], r[2]))
            c = TRUE
    i = fn('rfind', USIZE, s, p); k = LEN(p)
    return ITE(c, SOME(mk('tup', fn_sub(s, INT(0), i), fn_sub(s, add(i, k), sub(sub(LEN(s), i), k)))), NONE)
@smodel('split_once')
def _(cx):
    s = seq(cx.v(0)); p = pat(cx, 1)
    if p is None or s.op == 'ite' or p.op == 'ite': return None
    if is_const_seq(p) and const_len(p) == 1: return None      # the character form
    c = truth('contains', s, p); i = fn('find', USIZE, s, p); k = LEN(p)
    return ITE(c, SOME(mk('tup', fn_sub(s, INT(0), i), fn_sub(s, add(i, k), sub(sub(LEN(s), i), k)))), NONE)

def parts(s, p):
    """split of the text at a single constant character, when its occurrences are known"""
    if s.op != 'seq' or not is_const_seq(p) or const_len(p) != 1: return None
    out = []
    for _ in range(8):
        r = find_char(s, p.a[0].a[0][0])
        if r is None: return None
        if r[0] == 'none': return out + [s]
        out.append(r[1]); s = r[2]
    return None
def vec_it(x): return mk('it', mk('d_slice', x, STR), INT(0))
@smodel('split', 'rsplit', 'split_terminator', 'split_whitespace', 'split_ascii_whitespace', 'lines')
def _(cx):
    s = seq(cx.v(0))
    if cx.name in ('split_whitespace', 'split_ascii_whitespace', 'lines'): return vec_it(fn(cx.name, VSTR, s))
    p = pat(cx, 1)
    if p is None or s.op == 'ite' or p.op == 'ite': return None
    if cx.name == 'split':
        q = parts(s, p)
        if q is not None: return vec_it(as_seq(SEQ(*[ONE(x) for x in q])))
    r = fn(cx.name, VSTR, s, p)
    if r.op in ('unk', 'undef'): return r
    return vec_it(r)
@smodel('splitn', 'rsplitn')
def _(cx):
    s = seq(cx.v(0)); p = pat(cx, 2)
    if p is None or s.op == 'ite' or p.op == 'ite': return None
    return vec_it(fn(cx.name, VSTR, s, cx.v(1), p))
@smodel('replace')
def _(cx):
    p = pat(cx, 1)
    return None if p is None else fn('replace', STR, seq(cx.v(0)), p, seq(cx.v(2)))
@smodel('replacen')
def _(cx):
    p = pat(cx, 1)
    return None if p is None else fn('replacen', STR, seq(cx.v(0)), p, seq(cx.v(2)), cx.v(3))
@smodel('chars')
def _(cx):
    s = seq(cx.v(0))
    if s.op == 'seq' and M.ascii_only(s): return mk('it', mk('d_slice', s, ('char',)), INT(0))
    r = fn('chars', VCHAR, s)
    return r if r.op in ('unk', 'undef') else mk('it', mk('d_slice', r, ('char',)), INT(0))
@smodel('char_indices')
def _(cx):
    s = seq(cx.v(0))
    r = fn('char_indices', ('adt', 'alloc::vec::Vec', (CIDX,)), s)
    return r if r.op in ('unk', 'undef') else mk('it', mk('d_slice', r, CIDX), INT(0))
@M.model(*[k for k in CLS if k not in M.H])
def _(cx):
    if not cx.key.startswith('core::char::'): return None
    a = cx.v(0)
    if a.op in ('unk', 'undef'): return a
    if a.op == 'ite': return lift('chr:' + cx.name, lambda z: chrc(cx.name, z), a)
    return chrc(cx.name, a)
def chrc(name, a):
    if a.op == 'int':
        try: return BOOL(CLS[name](a.a[0]))
        except NoValue: return UNK('character class')
    return bcall('str:chr:' + name, a)
@smodel('bytes')
def _(cx):
    s = seq(cx.v(0))
    return None if s.op in ('unk', 'undef') else mk('it', mk('d_slice', s, ('int', 'u8')), INT(0))

@M.model('from_str_radix')
def _(cx):
    if not cx.key.startswith('core::num::'): return OLD['from_str_radix'](cx) if OLD.get('from_str_radix') else None
    r = cx.rty
    if not r or r[0] != 'adt' or r[1] != RES: return None
    t = strip(r[2][0])
    s = seq(cx.v(0)); k = cx.v(1)
    if t[0] != 'int' or k.op != 'int' or not 2 <= k.a[0] <= 36 or s.op == 'ite': return None
    return ITE(truth('isradix', s, k, t[1]), OK(fn('unradix', t, s, k, t[1])), ERR(mk('call', 'parseint', s, ('unk',))))
OLD = {}
