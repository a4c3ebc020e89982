from rules.preimages import *
import api
rule = 'two values are equal exactly when all their parts are, a copy equals its original, and amounts are ordered as numbers'
explanation = 'Every PartialEq, Eq, Clone, PartialOrd, Ord and Hash implementation of the crate is enumerated. A derived implementation is structural by construction of the compiler, so the obligation reduces to the fields\' types, which are enumerated too. A hand-written one is summarised on two symbolic values and compared with field-wise equality (the numeric order; the value itself); where that is not identical it is interpreted on pairs of spelled-out values, equal ones and ones that differ in a single place.'
assumptions = ['equality and ordering of the standard library and of the time crate are structural']
floor = 60
EQT, CLONE, ORDT, PORD, HASHT = 'core::cmp::PartialEq', 'core::clone::Clone', 'core::cmp::Ord', 'core::cmp::PartialOrd', 'core::hash::Hash'
WORKK = S.WORK[1] if isinstance(S.WORK, tuple) else S.WORK

def elements(s):
    """the single elements of a sequence of known length, or None"""
    out = []
    for p in as_seq(s).a:
        if p.op == 'lit': out += [INT(x) for x in p.a[0]]
        elif p.op == 'one': out.append(p.a[0])
        elif p.op == 'rep' and p.a[0].op == 'int' and p.a[0].a[0] <= 64: out += [p.a[1]] * p.a[0].a[0]
        else: return None
    return out
def seqof(els):
    return as_seq(CONCAT(*[SEQ(LIT((e.a[0],))) if e.op == 'int' and 0 <= e.a[0] < 256 else SEQ(ONE(e)) for e in els])) if els else mk('seq')

def changed(I, t, ty, d=0):
    """values that differ from the constant t in one place"""
    ty = I.strip(ty)
    if t.op == 'adt':
        todo = [(i, changed(I, t.a[i], I.field_ty(ty, t.a[1], i - 2) or ('unk',), d + 1)) for i in range(2, len(t.a))]
        while todo:             # one change of each part in turn
            again = []
            for i, g in todo:
                m = next(g, None)
                if m is None: continue
                again.append((i, g))
                yield ADT(t.a[0], t.a[1], *(t.a[2:i] + (m,) + t.a[i + 1:]))
            todo = again
    elif t.op == 'bool': yield BOOL(not t.a[0])
    elif t.op == 'int':
        v = t.a[0]
        yield INT(v - 1 if v > 0 else v + 1)
        if v >= 1 << 32: yield INT(v ^ (1 << (v.bit_length() - 1)))
        elif ty[0] == 'int' and ty[1] in ('u64', 'usize', 'u128'): yield INT(v + (1 << 40))
    elif t.op == 'call' and t.a[0] == 'fromunix' and t.a[1].op == 'int': yield M.fromunix(INT(t.a[1].a[0] + (1 if t.a[1].a[0] <= 0 else -1)))
    elif is_seq(t):
        els = elements(t)
        if els is None: return
        et = teval.elem_of(ty) or ('unk',)
        for i in sorted({0, len(els) // 2, len(els) - 1} & set(range(len(els)))):
            for m in changed(I, els[i], et, d + 1): yield seqof(els[:i] + [m] + els[i + 1:])
        for i in range(len(els) - 1):
            if els[i] is not els[i + 1]: yield seqof(els[:i] + [els[i + 1], els[i]] + els[i + 2:]); break
        if ty[0] != 'array' and et[0] != 'unk':
            if els: yield seqof(els[:-1]); yield seqof(els + [els[-1]])
            elif et[0] == 'int': yield seqof([INT(0)])
def is_seq(t): return t.op == 'seq'

def call(P, k, args):
    I = fresh(P); nested_hook(I); st = St(TRUE, {})
    r = I.call_key(k, args, st, {})
    return r, I, st

def pairs(P, ty, n):
    """pairs of spelled-out values of a type: equal ones, ones that differ in one place, unrelated ones"""
    prev = None
    for seed in range(n):
        s = api.Special(P, seed)
        v = s.get('a', ty)
        yield v, v
        k = 0
        for m in changed(s.I, v, ty):
            if m is v: continue
            yield v, m
            yield m, v
            k += 1
            if k > 40: break
        if prev is not None: yield prev, v
        prev = v

def concrete(P, k, ty, want, n=30, budget=60):
    import time
    t0 = time.time(); done = 0
    for x, y in pairs(P, ty, n):
        if time.time() - t0 > budget: break
        w = want(x, y)
        try: r, I, st = call(P, k, [x, y])
        except (Unsupported, RecursionError): continue
        if r is w and st.pc is TRUE: done += 1; continue
        if st.pc is FALSE: return ('violated', 'panics on %s and %s' % (show(x)[:200], show(y)[:200]))
        if r.op in ('bool', 'adt') and w.op == r.op and st.pc is TRUE and 'unk' not in show(r) and not open_(r) and not open_(w):
            return ('violated', 'for %s and %s the result is %s' % (show(x)[:300], show(y)[:300], show(r)[:80]))
    return ('undecided', 'not the field-wise form; %d single pairs agree' % done)
def open_(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple): todo += x
        elif isinstance(x, Node) and x.id not in seen:
            if x.op in ('sym', 'unk', 'undef'): return True
            seen.add(x.id); todo += x.a
    return False

def fieldwise(P, I, ty, a, b, d=0):
    A = P.adts.get(ty[1]) if ty[0] == 'adt' else None
    if not A or not A['local'] or A['kind'] != 'Struct' or ty[1] == WORKK or d > 6: return None if d == 0 else EQ(M.norm_eq(a), M.norm_eq(b))
    r = TRUE
    for i in range(len(A['variants'][0][1])):
        ft = I.strip(I.field_ty(ty, 0, i))
        r = AND(r, fieldwise(P, I, ft, FLD(a, 0, i, ft), FLD(b, 0, i, ft), d + 1))
    return r

def oneleft(I, ty, a, d=0):
    """(what, the value a with one of its parts replaced by another, unknown one)"""
    A = P_[0].adts.get(ty[1]) if ty[0] == 'adt' else None
    if not A or not A['local'] or A['kind'] != 'Struct' or ty[1] == WORKK or d > 6: return
    fs = A['variants'][0][1]
    parts = [(f[0], I.strip(I.field_ty(ty, 0, i))) for i, f in enumerate(fs)]
    vals = [FLD(a, 0, i, ft) for i, (_, ft) in enumerate(parts)]
    for i, (n, ft) in enumerate(parts):
        yield n, ADT(ty[1], 0, *(vals[:i] + [T.SYM('other', ft)] + vals[i + 1:]))
        for m, v in oneleft(I, ft, vals[i], d + 1): yield n + '.' + m, ADT(ty[1], 0, *(vals[:i] + [v] + vals[i + 1:]))
P_ = [None]

def ignored(P, k, ty, neg=False):
    """a part whose value makes no difference to the comparison"""
    P_[0] = P
    a = T.SYM('a', ty)
    for n, b in oneleft(fresh(P), ty, a):
        for x, y in ((a, b), (b, a)):
            try: r, I, st = call(P, k, [x, y])
            except (Unsupported, RecursionError): continue
            if r is BOOL(not neg) and st.pc is TRUE: return ('violated', 'values that differ in %s only are %s' % (n, 'not unequal' if neg else 'equal'))
    return None

def obligations(P, tier):
    I0 = fresh(P)
    out = []
    def item(im, n):
        for x, k, _ in im['items']:
            if x == n and k in P.bodies: return k
        return None
    for im in P.impls:
        tr = im['trait']
        if tr not in (EQT, CLONE, ORDT, PORD, HASHT): continue
        ty = I0.strip(P._arg(im['args'][0]))
        if ty[0] != 'adt' or not (P.adts.get(ty[1]) or {}).get('local'): continue
        if ty[1] == WORKK and not im['derived']: continue     # generated by the uint crate
        name = '%s of %s' % (tr.rsplit('::', 1)[-1], ty[1].replace('sia::', ''))
        if im['derived']:
            out.append(Ob(name, im['span'], 'derived: ' + rule, lambda: ('holds', 'derived'))); continue
        if tr == EQT:
            if len(im['args']) > 1 and I0.strip(P._arg(im['args'][1])) != ty: continue
            k = item(im, 'eq')
            if k is None: continue
            def run(k=k, ty=ty):
                a, b = T.SYM('a', ty), T.SYM('b', ty)
                try:
                    r, I, st = call(P, k, [a, b])
                    w = fieldwise(P, I, ty, a, b)
                    if w is not None:
                        c = both(cmpq.compare(I, S, r, w), cmpq.compare(I, S, st.pc, TRUE))
                        if c[0] != 'undecided': return c
                except (Unsupported, RecursionError): pass
                return ignored(P, k, ty) or concrete(P, k, ty, lambda x, y: BOOL(x is y))
            out.append(Ob(name, where(P, k), rule, run))
            n = item(im, 'ne')
            if n:
                def run(k=n, ty=ty): return ignored(P, k, ty, True) or concrete(P, k, ty, lambda x, y: BOOL(x is not y))
                out.append(Ob(name + ' (ne)', where(P, n), rule, run))
        elif tr == CLONE:
            k = item(im, 'clone')
            if k is None: continue
            def run(k=k, ty=ty):
                a = T.SYM('a', ty)
                try:
                    r, I, st = call(P, k, [a])
                    c = both(cmpq.compare(I, S, r, a), cmpq.compare(I, S, st.pc, TRUE))
                    if c[0] != 'undecided': return c
                except (Unsupported, RecursionError): pass
                for seed in range(12):
                    s = api.Special(P, seed); v = s.get('a', ty)
                    try: r, I, st = call(P, k, [v])
                    except (Unsupported, RecursionError): continue
                    if r is not v and not open_(r) and st.pc is TRUE: return ('violated', 'the copy of %s is %s' % (show(v)[:300], show(r)[:300]))
                return ('undecided', 'copy')
            out.append(Ob(name, where(P, k), rule, run))
        elif tr in (ORDT, PORD) and ty[1] == S.CUR:
            U = ('int', 'u128')
            for n, w in (('cmp', lambda x, y: M.ordv(LT(x, y), EQ(x, y))), ('partial_cmp', lambda x, y: SOME(M.ordv(LT(x, y), EQ(x, y)))), ('lt', LT), ('gt', lambda x, y: LT(y, x)),
                         ('le', lambda x, y: NOT(LT(y, x))), ('ge', lambda x, y: NOT(LT(x, y)))):
                k = item(im, n)
                if k is None: continue
                def run(k=k, w=w):
                    a, b = SYM('a', S.A(S.CUR)), SYM('b', S.A(S.CUR))
                    r, I, st = call(P, k, [a, b])
                    return both(cmpq.compare(I, S, r, w(FLD(a, 0, 0, U), FLD(b, 0, 0, U))), cmpq.compare(I, S, st.pc, TRUE))
                out.append(Ob(name + ' (%s)' % n, where(P, k), rule, run))
        elif tr == HASHT:
            out.append(Ob(name, im['span'], rule, lambda: ('undecided', 'hand-written hash')))
    return out
