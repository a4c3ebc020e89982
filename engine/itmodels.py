"""Further iterator, slice and vector functions, on top of models.py."""
import terms as T
from terms import *
import models as M
from models import (H, SOME, NONE, OK, ERR, strip, follow, itd, itv, it_len, drive, search, to_iter, index, slice_, issome, somev,
                    LS, elem_ty, rty_of, vec_op, range_bounds, U8, USIZE, OPT, is_opt, RG)

def wrap(*names):
    """register a model that falls back on the one there was"""
    def deco(f):
        for n in names:
            old = H.get(n)
            def g(cx, f=f, old=old):
                r = f(cx)
                return r if r is not None or old is None else old(cx)
            H[n] = g
        return f
    return deco
def opt_inner(cx):
    """element type of the Option or slice returned"""
    return rty_of(cx)

# ---------------------------------------------------------------- iterators
def prefix(cx, d):
    """number of leading elements that satisfy the predicate"""
    r = search(cx, lambda i, v: SOME(i), neg=True)
    if r is None or cx.st.pc is FALSE: return None
    n = it_len(cx.I, cx.st, d)
    return LS('prefix%d' % n.id, lambda z: ITE(issome(z), somev(z, USIZE), n), r)
@wrap('take_while')
def _(cx):
    d = itd(cx, 0)
    if d is None: return None
    n = prefix(cx, d)
    return None if n is None or n.op in ('unk', 'undef') else mk('it', mk('d_take', d, n), INT(0))
@wrap('skip_while')
def _(cx):
    d = itd(cx, 0)
    if d is None: return None
    n = prefix(cx, d)
    return None if n is None or n.op in ('unk', 'undef') else mk('it', mk('d_skip', d, n), INT(0))
@wrap('filter_map')
def _(cx):
    d = itd(cx, 0)
    return None if d is None else mk('it', mk('d_fmap', d, cx.I.rval(cx.st, cx.args[1])), INT(0))
_len, _item = M.it_len, M.it_item
def it_len2(I, st, d):
    if d.op == 'd_fmap': return M.it_len(I, st, d.a[0])
    return _len(I, st, d)
def it_item2(cx, st, d, i):
    if d.op == 'd_fmap':
        v, g = M.it_item(cx, st, d.a[0], i)
        s = st if g is TRUE else st.fork(g)
        r = cx.I.apply(d.a[1], [v], s, cx.x)
        if s.pc is FALSE: return UNDEF, g
        return somev(r, None), AND(g, cx.I.cond(issome(r), st))
    return _item(cx, st, d, i)
M.it_len = it_len2; M.it_item = it_item2; it_len = it_len2

def pieces(cx, it, f):
    """concatenation of the sequences f yields for the elements"""
    I = cx.I
    acc = I.alloc(cx.st, mk('seq'))
    bad = []
    def step(s, v, ctl):
        r = f(s, v)
        if s.pc is FALSE: return
        j = to_iter(cx, I.rval(s, r), None)
        if j is None or j.a[0].op != 'd_slice' or j.a[1] is not INT(0): bad.append(1); r = UNK('flat')
        else: r = as_seq(j.a[0].a[0])
        I.store(s, (acc, ()), CONCAT(I.load(s, (acc, ())), r))
    drive(cx, it, step)
    if cx.st.pc is FALSE: return UNDEF
    if bad: return None
    return mk('it', mk('d_slice', I.load(cx.st, (acc, ())), None), INT(0))
@wrap('flat_map')
def _(cx):
    it = itv(cx, 0)
    return None if it is None else pieces(cx, it, lambda s, v: cx.I.apply(cx.args[1], [v], s, cx.x))
@wrap('flatten')
def _(cx):
    if is_opt(cx): return None
    it = itv(cx, 0)
    if it is None: return None
    t = strip(cx.targs[0]) if cx.targs else None
    if t and t[0] == 'adt' and t[1].split('::')[-1] in ('ChunksMut', 'ChunksExactMut', 'IterMut'):
        d = it.a[0]
        if d.op != 'd_mutchunks' or it.a[1] is not INT(0): return None
        cell, path, n, k, L = d.a
        if t[1].endswith('ChunksExactMut'): L = M.mul(n, k)
        e = [x for x in t[2] if isinstance(x, tuple) and x[0] not in ('region', 'lt')]
        return mk('it', mk('d_mut', cell, path, L, strip(e[-1]) if e else None), INT(0))
    return pieces(cx, it, lambda s, v: v)
@wrap('product')
def _(cx):
    it = itv(cx, 0)
    t = strip(cx.rty) if cx.rty else None
    if it is None or not M.is_int_t(t): return None
    I = cx.I
    acc = I.alloc(cx.st, INT(1), t)
    def step(s, v, ctl):
        r = I.binop('Mul', I.load(s, (acc, ())), I.rval(s, v), t, s, cx.x)
        if s.pc is not FALSE: I.store(s, (acc, ()), r)
    drive(cx, it, step)
    return I.load(cx.st, (acc, ())) if cx.st.pc is not FALSE else UNDEF
@wrap('try_fold')
def _(cx):
    it = itv(cx, 0)
    t = strip(cx.rty) if cx.rty else None
    if it is None or not t or t[0] != 'adt' or t[1] not in (M.RES, OPT): return None
    good, val = (M.isok, M.okv) if t[1] == M.RES else (issome, somev)
    I = cx.I
    acc = I.alloc(cx.st, cx.v(1))
    res = I.alloc(cx.st, NONE)
    def step(s, v, ctl):
        r = I.apply(cx.args[2], [I.load(s, (acc, ())), v], s, cx.x)
        if s.pc is FALSE: return
        c = I.cond(good(r), s)
        if c is not TRUE:
            s2 = s.fork(NOT(c))
            if s2.pc is not FALSE:
                I.store(s2, (res, ()), SOME(r)); ctl.breaks.append((s2.pc, UNIT, s2.mem))
            s.pc = AND(s.pc, c)
        if s.pc is not FALSE: I.store(s, (acc, ()), val(r, None))
    drive(cx, it, step)
    if cx.st.pc is FALSE: return UNDEF
    r = I.load(cx.st, (res, ())); a = I.load(cx.st, (acc, ()))
    return ITE(issome(r), somev(r, t), OK(a) if t[1] == M.RES else SOME(a))
@wrap('nth')
def _(cx):
    if cx.args[0].op != 'mref': return None
    pl, v = follow(cx.I, cx.st, cx.args[0])
    if pl is None: return None
    it = to_iter(cx, v, strip(cx.targs[0]) if cx.targs else None)
    if it is None: return None
    return M.it_next(cx, cx.st, pl, mk('it', it.a[0], add(it.a[1], cx.v(1))))
@wrap('last')
def _(cx):
    if 'iter' not in cx.key: return None
    d = itd(cx, 0)
    if d is None: return None
    I, st = cx.I, cx.st
    n = it_len(I, st, d)
    c = I.cond(NOT(EQ0(n)), st)
    if c is FALSE: return NONE
    s = st.fork(c)
    v, g = M.it_item(cx, s, d, sub(n, INT(1)))
    if g is not TRUE or s.mem != st.mem: return None
    return ITE(c, SOME(v), NONE)
@wrap('rposition')
def _(cx):
    it = itv(cx, 0)
    if it is None: return None
    d = it.a[0]
    n = sub(it_len(cx.I, cx.st, d), it.a[1])
    cx2 = over(cx, mk('it', mk('d_rev', d if it.a[1] is INT(0) else mk('d_skip', d, it.a[1])), INT(0)))
    return search(cx2, lambda i, v: SOME(sub(sub(n, INT(1)), i)))
@wrap('rfind')
def _(cx):
    if 'iter' not in cx.key: return None
    d = itd(cx, 0)
    if d is None: return None
    return search(over(cx, mk('it', mk('d_rev', d), INT(0))), lambda i, v: SOME(v))
def over(cx, it):
    """the same call with another iterator as receiver"""
    import copy
    c = copy.copy(cx)
    c.args = [it] + list(cx.args[1:])
    return c
@wrap('once')
def _(cx): return mk('it', mk('d_slice', as_seq(SEQ(ONE(cx.v(0)))), None), INT(0)) if 'iter' in cx.key else None
@wrap('empty')
def _(cx): return mk('it', mk('d_slice', mk('seq'), None), INT(0)) if 'iter' in cx.key else None
@wrap('from_fn')
def _(cx):
    if not cx.key.startswith('core::array'): return None
    t = strip(cx.rty) if cx.rty else None
    n = T.const_len_of(t) if hasattr(T, 'const_len_of') else None
    if t and t[0] == 'array' and t[2] and t[2][0][0] == 'cval': n = int(t[2][0][1])
    if n is None or n > 256: return None
    out = []
    for i in range(n):
        v = cx.I.apply(cx.args[0], [INT(i)], cx.st, cx.x)
        if cx.st.pc is FALSE: return UNDEF
        out.append(ONE(v))
    return as_seq(SEQ(*out))

# rayon on shared data: the elements in order
@wrap('par_iter', 'into_par_iter')
def _(cx):
    t = cx.targs[0] if cx.targs else None
    v = cx.v(0)
    return to_iter(cx, v, strip(t) if t else None)
@wrap('par_iter_mut')
def _(cx): return M.mut_iter(cx)
@wrap('par_chunks', 'par_chunks_exact', 'par_windows')
def _(cx):
    v = cx.v(0); k = cx.v(1)
    cx.I.panic(cx.st, EQ0(k), 'chunk0', cx.x)
    return mk('it', mk('d_' + cx.name[4:], v, k), INT(0))
@wrap('with_min_len', 'with_max_len')
def _(cx): return cx.args[0]

# ---------------------------------------------------------------- slices
@wrap('split_first', 'split_last')
def _(cx):
    if 'slice' not in cx.key: return None
    v = cx.v(0)
    def f(z):
        z = as_seq(z); L = LEN(z)
        if L is INT(0): return NONE
        m = sub(L, INT(1))
        et = elem_ty(cx.targs[0]) if cx.targs and elem_ty(cx.targs[0]) else (strip(cx.targs[0]) if cx.targs else None)
        r = SOME(mk('tup', index(z, INT(0), et), slice_(z, INT(1), m)) if cx.name == 'split_first' else mk('tup', index(z, m, et), slice_(z, INT(0), m)))
        return ITE(EQ0(L), NONE, r)
    return LS(cx.name, f, v)
@wrap('first_mut', 'last_mut')
def _(cx):
    if 'slice' not in cx.key: return None
    pl, v = follow(cx.I, cx.st, cx.args[0])
    if pl is None: return None
    L = LEN(v)
    et = strip(cx.targs[0]) if cx.targs else None
    r = mk('mref', pl[0], pl[1] + (('x', INT(0) if cx.name == 'first_mut' else sub(L, INT(1)), et),))
    return SOME(r) if rng(L)[0] > 0 else ITE(EQ0(L), NONE, SOME(r))
@wrap('get_mut')
def _(cx):
    if 'slice' not in cx.key: return None
    pl, v = follow(cx.I, cx.st, cx.args[0])
    i = cx.v(1)
    if pl is None or not is_int(i): return None
    r = mk('mref', pl[0], pl[1] + (('x', i, strip(cx.targs[0]) if cx.targs else None),))
    return ITE(LT(i, LEN(v)), SOME(r), NONE)
@wrap('split_at_mut')
def _(cx):
    if 'slice' not in cx.key: return None
    pl, v = follow(cx.I, cx.st, cx.args[0])
    if pl is None: return None
    n = cx.v(1); L = LEN(v)
    cx.I.panic(cx.st, GT(n, L), 'slice', cx.x)
    if cx.st.pc is FALSE: return UNDEF
    return mk('tup', mk('mref', pl[0], pl[1] + (('r', INT(0), n),)), mk('mref', pl[0], pl[1] + (('r', n, sub(L, n)),)))
@wrap('rotate_left', 'rotate_right')
def _(cx):
    if 'slice' not in cx.key: return None
    pl, v = follow(cx.I, cx.st, cx.args[0])
    if pl is None: return None
    n = cx.v(1); L = LEN(v)
    cx.I.panic(cx.st, GT(n, L), 'slice', cx.x)
    if cx.st.pc is FALSE: return UNDEF
    m = n if cx.name == 'rotate_left' else sub(L, n)
    cx.I.store(cx.st, pl, LS('rot%d' % m.id, lambda z: CONCAT(slice_(as_seq(z), m, sub(LEN(z), m)), slice_(as_seq(z), INT(0), m)), v))
    return UNIT
def reversed_(s):
    s = as_seq(s)
    if s.op != 'seq': return UNK('reverse')
    L = LEN(s)
    if L.op == 'int' and L.a[0] <= 256: return as_seq(SEQ(*[ONE(index(s, INT(L.a[0] - 1 - i))) for i in range(L.a[0])]))
    i = fresh_index()
    return as_seq(SEQ(MAP(L, i, SEQ(ONE(index(s, sub(sub(L, INT(1)), i)))))))
@wrap('reverse')
def _(cx):
    if 'slice' not in cx.key: return None
    return vec_op(cx, reversed_)
@wrap('ends_with')
def _(cx):
    if not cx.key.startswith('core::slice'): return None
    def f(s, q):
        if s.op in ('unk', 'undef'): return s
        if q.op in ('unk', 'undef'): return q
        c = GE(LEN(s), LEN(q))
        return c if c is FALSE else AND(c, EQ(slice_(as_seq(s), sub(LEN(s), LEN(q)), LEN(q)), as_seq(q)))
    return LS('ends_with', f, cx.seq(0), cx.seq(1))
@wrap('first_chunk', 'split_first_chunk')
def _(cx):
    t = strip(cx.rty) if cx.rty else None
    if not t or t[0] != 'adt' or t[1] != OPT: return None
    t = strip(t[2][0])
    if t[0] == 'tuple': t = strip(t[1][0])
    if t[0] != 'array' or not t[2] or t[2][0][0] != 'cval': return None
    k = INT(int(t[2][0][1])); v = cx.v(0)
    def f(z):
        z = as_seq(z); L = LEN(z); c = GE(L, k)
        if c is FALSE: return NONE
        h = slice_(z, INT(0), k)
        return ITE(c, SOME(h if cx.name == 'first_chunk' else mk('tup', h, slice_(z, k, sub(L, k)))), NONE)
    return LS(cx.name, f, v)

# ---------------------------------------------------------------- vectors
@wrap('swap_remove', 'remove')
def _(cx):
    if not cx.key.startswith('alloc::vec'): return None
    pl, v = follow(cx.I, cx.st, cx.args[0])
    if pl is None or v.op == 'ite': return None
    s = as_seq(v); i = cx.v(1); L = LEN(s)
    cx.I.panic(cx.st, GE(i, L), 'index', cx.x)
    if cx.st.pc is FALSE: return UNDEF
    x = index(s, i, elem_ty(cx.targs[0]) if cx.targs else None)
    m = sub(L, INT(1))
    if cx.name == 'remove': r = CONCAT(slice_(s, INT(0), i), slice_(s, add(i, INT(1)), sub(m, i)))
    else: r = slice_(M.store_at(s, i, INT(1), SEQ(ONE(index(s, m)))), INT(0), m)
    cx.I.store(cx.st, pl, r)
    return x
def _deque(f):
    def g(cx):
        if 'vec_deque' not in cx.key: return None
        pl, v = follow(cx.I, cx.st, cx.args[0])
        if pl is None or v.op == 'ite': return None
        s = as_seq(v)
        return None if s.op != 'seq' else f(cx, pl, s, LEN(s))
    return g
def _pop(front):
    def f(cx, pl, s, L):
        if not s.a: return NONE
        if rng(L)[0] < 1: return None
        at = INT(0) if front else sub(L, INT(1))
        x = index(s, at, elem_ty(cx.targs[0]) if cx.targs and elem_ty(cx.targs[0]) else opt_inner(cx))
        cx.I.store(cx.st, pl, slice_(s, INT(1) if front else INT(0), sub(L, INT(1))))
        return SOME(x)
    return _deque(f)
wrap('pop_front')(_pop(True)); wrap('pop_back')(_pop(False))
wrap('push_back')(_deque(lambda cx, pl, s, L: (cx.I.store(cx.st, pl, CONCAT(s, SEQ(ONE(cx.v(1))))), UNIT)[1]))
wrap('push_front')(_deque(lambda cx, pl, s, L: (cx.I.store(cx.st, pl, CONCAT(SEQ(ONE(cx.v(1))), s)), UNIT)[1]))
def _end(front):
    def f(cx):
        if 'vec_deque' not in cx.key: return None
        v = as_seq(cx.v(0)); L = LEN(v)
        if L is INT(0): return NONE
        return ITE(EQ0(L), NONE, SOME(index(v, INT(0) if front else sub(L, INT(1)), opt_inner(cx))))
    return f
wrap('front')(_end(True)); wrap('back')(_end(False))
@wrap('insert')
def _(cx):
    if not cx.key.startswith('alloc::vec'): return None
    i, x = cx.v(1), cx.v(2)
    pl, v = follow(cx.I, cx.st, cx.args[0])
    if pl is None: return None
    cx.I.panic(cx.st, GT(i, LEN(v)), 'index', cx.x)
    if cx.st.pc is FALSE: return UNDEF
    return vec_op(cx, lambda s: CONCAT(slice_(s, INT(0), i), SEQ(ONE(x)), slice_(s, i, sub(LEN(s), i))))
@wrap('drain')
def _(cx):
    if not cx.key.startswith('alloc::vec'): return None
    pl, v = follow(cx.I, cx.st, cx.args[0])
    if pl is None or v.op == 'ite': return None
    s = as_seq(v); L = LEN(s)
    b = range_bounds(cx, cx.v(1), L)
    if b is None: return None
    a, e = b
    cx.I.panic(cx.st, OR(GT(a, e), GT(e, L)), 'slice', cx.x)
    if cx.st.pc is FALSE: return UNDEF
    cx.I.store(cx.st, pl, CONCAT(slice_(s, INT(0), a), slice_(s, e, sub(L, e))))
    return mk('it', mk('d_slice', slice_(s, a, sub(e, a)), None), INT(0))
@wrap('split_off')
def _(cx):
    if not cx.key.startswith('alloc::vec'): return None
    pl, v = follow(cx.I, cx.st, cx.args[0])
    if pl is None or v.op == 'ite': return None
    s = as_seq(v); L = LEN(s); n = cx.v(1)
    cx.I.panic(cx.st, GT(n, L), 'slice', cx.x)
    if cx.st.pc is FALSE: return UNDEF
    cx.I.store(cx.st, pl, slice_(s, INT(0), n))
    return slice_(s, n, sub(L, n))
@wrap('retain')
def _(cx):
    if not cx.key.startswith('alloc::vec'): return None
    pl, v = follow(cx.I, cx.st, cx.args[0])
    if pl is None or v.op == 'ite': return None
    I = cx.I
    acc = I.alloc(cx.st, mk('seq'))
    def step(s, x, ctl):
        c = I.cond(I.apply(cx.args[1], [x], s, cx.x), s)
        if s.pc is FALSE: return
        I.store(s, (acc, ()), CONCAT(I.load(s, (acc, ())), ITE(c, as_seq(SEQ(ONE(I.rval(s, x)))), mk('seq'))))
    drive(cx, mk('it', mk('d_slice', as_seq(v), elem_ty(cx.targs[0]) if cx.targs else None), INT(0)), step)
    if cx.st.pc is FALSE: return UNDEF
    I.store(cx.st, pl, I.load(cx.st, (acc, ())))
    return UNIT
def _sorted(name):
    def f(cx):
        if 'slice' not in cx.key and not cx.key.startswith('alloc::vec'): return None
        if len(cx.args) > 1: return None
        return vec_op(cx, lambda s: s if s.op == 'seq' and (not s.a or LEN(s) is INT(1)) else as_seq(mk('call', name, s, ('adt', 'alloc::vec::Vec', (elem_ty(cx.targs[0]) or strip(cx.targs[0]),)))))
    return f
for _n, _k in (('sort', 'sorted'), ('sort_unstable', 'sorted'), ('dedup', 'deduped')): wrap(_n)(_sorted(_k))

# ------------------------------------------------------------------ buffered readers and writers
@wrap('new', 'with_capacity')
def _(cx):
    t = cx.I.strip(cx.rty) if cx.rty else None
    if not t or t[0] != 'adt' or t[1].rsplit('::', 1)[-1] not in ('BufWriter', 'BufReader', 'LineWriter') or not cx.args: return None
    a = cx.args[-1]
    pl, v = M.follow(cx.I, cx.st, a)
    if pl is None: return None
    if t[1].endswith('Writer') and v.op == 'sink':
        # what it still holds when it is dropped is written then, and a failure of that write is lost
        if cx.I.fails and v.a[0] == 'w': cx.I.bufs.append(M.fail_atom(cx.I, cx.st, cx.x, 'buffered write, not flushed'))
        return a
    if t[1].endswith('Reader') and v.op == 'rd':
        # it takes more from the reader below than it hands out
        r = cx.I.alloc(cx.st, v)
        cx.I.store(cx.st, pl, mk('rd', 'seq', v.a[1], mk('seq')) if v.a[0] == 'seq' else mk('rd', 'stream', '%s after buffering' % (v.a[1],), INT(0)))
        return mk('mref', r, ())
