"""Equality of summaries: identity of normal forms, with table expansion and case split."""
import terms as T
from terms import *
import models as M
import teval

_rs = {}
def restrict(n, atom, val):
    """n under the assumption atom = val, everywhere inside n"""
    memo = {}
    def go(x):
        if isinstance(x, tuple): return tuple(go(y) for y in x)
        if not isinstance(x, Node): return x
        r = memo.get(x.id)
        if r is not None: return r
        if not x.a: r = x
        elif x.op == 'ite':
            q = rel(atom, val, x.a[0])
            if q is True: r = go(x.a[1])
            elif q is False: r = go(x.a[2])
            else:
                h, l = go(x.a[1]), go(x.a[2])
                at = x.a[0]
                na = tuple(go(y) for y in at.a)
                if na != at.a:
                    c = rebuild(at, na)
                    if c.op not in ('ite', 'bool', 'unk', 'undef'): c = ATOM(c)
                    r = ITE(c, h, l)
                else: r = x if h is x.a[1] and l is x.a[2] else ITE(ATOM(at), h, l)
        else:
            a = tuple(go(y) for y in x.a)
            r = x if a == x.a else rebuild(x, a)
        memo[x.id] = r
        return r
    return go(n)

def split_atoms(n, out):
    """atoms of the decision diagrams occurring in n, outermost first, not below a binder"""
    seen = set()
    def go(x):
        if isinstance(x, tuple):
            for y in x: go(y)
            return
        if not isinstance(x, Node) or x.id in seen: return
        seen.add(x.id)
        if x.op == 'ite':
            if not bvset(x.a[0]) and x.a[0] not in out: out.append(x.a[0])
            go(x.a[1]); go(x.a[2]); return
        if x.op in ('map', 'first', 'any'): go(x.a[0]); return
        for y in x.a: go(y)
    go(n)
    return out

def flat(S, n, depth=12):
    """expand every enc piece of a named type by its table entry"""
    memo = {}
    def go(x):
        if isinstance(x, tuple): return tuple(go(y) for y in x)
        if not isinstance(x, Node): return x
        r = memo.get(x.id)
        if r is not None: return r
        if x.op == 'seq':
            ps = []
            ch = False
            for p in x.a:
                q = p
                if p.op == 'enc' and p.a[1][0] != 'fn':
                    e = S.expand(*p.a)
                    if p.a[1][0] == 'adt' and p.a[1][1] == S.SP: e = None
                    if e is not None: q = go(as_seq(e)); ch = True
                    else: q = go_args(p)
                else: q = go_args(p)
                ps.append(q)
            r = CONCAT(*[(p if p.op in ('seq', 'ite') else mk('seq', p)) for p in ps]) if ps else x
            r = as_seq(r) if r.op != 'ite' else r
        else: r = go_args(x)
        memo[x.id] = r
        return r
    def go_args(x):
        if not x.a: return x
        if x.op == 'ite':
            h, l = go(x.a[1]), go(x.a[2])
            at = go(x.a[0])
            if h is x.a[1] and l is x.a[2] and at is x.a[0]: return x
            return ITE(ATOM(at) if at.op not in ('ite', 'bool') else at, h, l)
        a = tuple(go(y) for y in x.a)
        if a == x.a: return x
        return rebuild(x, a) if x.op in ('lin', 'len', 'seq') or x.op in T.BOOLATOM else mk(x.op, *a)
    return go(n)

def canon_seq(n):
    return as_seq(n) if n.op in ('sym', 'fld', 'idx', 'call', 'bytes', 'hb', 'hex', 'arr', 'phi') and is_seqy(n) else n
def is_seqy(n):
    if n.op in ('bytes', 'hb', 'hex', 'arr'): return True
    t = T.node_ty(n)
    return bool(t) and (t[0] in ('array', 'slice', 'str') or t[0] == 'adt' and (t[1].endswith('::Vec') or t[1].endswith('::String')))

def rename_fn(S, n):
    """the recursive policy writer: a piece of a recursive helper stands for the policy it is given"""
    memo = {}
    def go(x):
        if isinstance(x, tuple): return tuple(go(y) for y in x)
        if not isinstance(x, Node): return x
        r = memo.get(x.id)
        if r is not None: return r
        if x.op == 'enc' and x.a[0].startswith('fn:'):
            v = x.a[2]
            ps = [y for y in (v.a if v.op == 'tup' else (v,)) if (T.node_ty(y) or ('',))[0] == 'adt' and T.node_ty(y)[1] == S.SP]
            r = mk('enc', 'policy', ('fn',), ps[0]) if len(ps) == 1 else x
        elif not x.a: r = x
        else:
            a = tuple(go(y) for y in x.a)
            r = x if a == x.a else mk(x.op, *a)
        memo[x.id] = r
        return r
    return go(n)

def atoms_of(c, out):
    """facts (atom, value) implied by a conjunctive condition"""
    while c.op == 'ite':
        if c.a[2].op == 'bool' and c.a[2].a[0] is False: out.append((c.a[0], True)); c = c.a[1]
        elif c.a[1].op == 'bool' and c.a[1].a[0] is False: out.append((c.a[0], False)); c = c.a[2]
        else: break
    return out

def holds(facts, c):
    """value of condition c under the facts, or None"""
    for at, v in facts: c = restrict(c, at, v)
    return c.a[0] if c.op == 'bool' else None

def refine(facts, at, v):
    """the facts and one more, which also simplifies them; None when they cannot all hold"""
    out = []
    for a, w in facts:
        out.append((a, w))
        c = restrict(ATOM(a), at, v)
        if c is ATOM(a): continue
        if c.op == 'bool':
            if c.a[0] != w: return None
            continue
        out += [z for z in atoms_of(c if w else NOT(c), []) if z not in out and z not in facts]
    out.append((at, v))
    return None if empty(out) else out

def empty(facts):
    """no value of some term satisfies the bounds and exclusions stated for it"""
    box = {}
    for a, v in facts:
        if a.op not in ('ge0', 'eq0'): continue
        q = T._single(a.a[0])
        if q is None: continue
        t, k, c = q
        b = box.setdefault(t.id, [*T.rng(t), set()])
        # k*t + c
        if a.op == 'eq0':
            if c % k: 
                if v: return True
                continue
            x = -c // k
            if v: b[0] = max(b[0], x); b[1] = min(b[1], x)
            else: b[2].add(x)
        else:
            if not v: k, c = -k, -c - 1
            if k > 0: b[0] = max(b[0], -(c // k))
            else: b[1] = min(b[1], c // -k)
    for lo, hi, ex in box.values():
        while lo in ex: lo += 1
        while hi in ex: hi -= 1
        if lo > hi: return True
    return False

def tighten(n, facts):
    """conversions that cannot lose anything under the facts"""
    cs = {}
    def look(x):
        if isinstance(x, tuple):
            for y in x: look(y)
        elif isinstance(x, Node) and x.id not in cs:
            cs[x.id] = x
            for y in x.a: look(y)
    look(n)
    m = {}
    for x in cs.values():
        if x.op == 'cast' and x.a[1].op != 'ite' and not bvset(x):
            lo, hi = T.RANGES[x.a[0]]
            if holds(facts, GE(x.a[1], INT(lo))) and holds(facts, LE(x.a[1], INT(hi))): m[x] = x.a[1]
    return subst(n, m) if m else n

def equal(S, a, b, budget=400, cond=TRUE):
    """True when the normal forms coincide (after expansion and case split), else False"""
    cnt = [0]
    def go(a, b, d, facts):
        cnt[0] += 1
        if cnt[0] > budget: return False
        a, b = canon_seq(a), canon_seq(b)
        if a is b: return True
        if a.op == 'tup' and b.op == 'tup' and len(a.a) == len(b.a):
            return all(go(x, y, d, facts) for x, y in zip(a.a, b.a))
        if a.op == 'adt' and b.op == 'adt' and a.a[:2] == b.a[:2] and len(a.a) == len(b.a):
            return all(go(x, y, d, facts) for x, y in zip(a.a[2:], b.a[2:]))
        for x, y in ((a, b), (b, a)):
            # a value equals its own reconstruction
            if x.op == 'adt' and y.op in ('sym', 'fld', 'idx', 'call') and not is_seqy(y):
                A = S.I.P.adts.get(x.a[0])
                nv = len(A['variants']) if A else {OPT: 2, RES: 2}.get(x.a[0], 0)
                if not nv or (T.node_ty(y) or ('', ''))[1] != x.a[0]: continue
                if nv > 1 and not holds(facts, ISV(y, x.a[1], nv)): continue
                if nv > 1 and len(x.a) == 2: return True
                return all(go(f, FLD(y, x.a[1], i, fty(S, y, x.a[1], i)), d, facts) for i, f in enumerate(x.a[2:]))
            if x.op == 'seq' and y.op == 'seq' and not x.a and holds(facts, EQ0(LEN(y))): return True
        if facts and is_int(a) and is_int(b) and holds(facts, EQ(a, b)): return True
        if a.op == 'seq' and b.op == 'seq' and len(a.a) == len(b.a) and pieces_eq(a, b, d, facts): return True
        ats = [x for x in split_atoms(mk('tup', a, b), []) ]
        if not ats or d > 40:
            if facts:
                ta, tb = tighten(a, facts), tighten(b, facts)
                if ta is not a or tb is not b: return go(ta, tb, d, facts)
            return False
        at = ats[0]
        k = holds(facts, ATOM(at))
        if k is None and facts and find_ops(at, ('cast',)): k = holds(facts, tighten(ATOM(at), facts))
        ok = True
        for v in (True, False):
            if k is not None and k != v: continue
            cnd = cond0
            for x, y in facts + [(at, v)]: cnd = restrict(cnd, x, y) if cnd.op == 'ite' else cnd
            if cnd is FALSE: continue
            fs = refine(facts, at, v)
            if fs is None: continue
            fs += [z for z in atoms_of(cnd, []) if z not in fs]
            ok = ok and go(restrict(a, at, v), restrict(b, at, v), d + 1, fs)
        return ok
    def pieces_eq(a, b, d, facts):
        def alts(p):
            if p.op == 'alt': return lift('unsl', lambda z: z if z.op == 'undef' else as_seq(SEQ(*z.a[0].a)), p.a[0])
            return lift('ones', lambda z: as_seq(SEQ(ONE(z))), p.a[0])
        def pe(p, q):
            if p is q: return True
            if {p.op, q.op} == {'alt', 'one'}: return go(alts(p), alts(q), d + 1, facts)
            if p.op != q.op: return False
            if p.op == 'enc': return p.a[:2] == q.a[:2] and go(p.a[2], q.a[2], d + 1, facts)
            if p.op == 'one': return go(p.a[0], q.a[0], d + 1, facts)
            return False
        return all(pe(p, q) for p, q in zip(a.a, b.a))
    f0 = atoms_of(cond, [])
    cond0 = cond
    if canon_seq(a) is canon_seq(b): return True
    if f0: a, b = tighten(a, f0), tighten(b, f0)
    if go(a, b, 0, f0): return True
    fa, fb = flat(S, a), flat(S, b)
    if fa is a and fb is b: return False
    cnt[0] = 0
    return go(fa, fb, 0, f0)

def fty(S, y, vi, i):
    t = T.FIELD_TY[0](T.node_ty(y), vi, i) if T.FIELD_TY[0] and T.node_ty(y) else None
    return t

def compare(I, S, got, want, cond=TRUE, tries=160, budget=20.0, hints=None):
    """('equal', '') | ('differ', witness) | ('undecided', why)"""
    if cond is not TRUE:
        got, want = constrain(got, cond), constrain(want, cond)
    if not has_unk(got) and equal(S, got, want, cond=cond): return ('equal', '')
    w, n, u = teval.differ(I, S, got, want, cond, tries, budget, hints)
    if w: return ('differ', w)
    return ('undecided', '%d valuations agree, %d undecided%s' % (n, u, '; unknown value ' + why_unk(got) if has_unk(got) else ''))

def why_unk(n):
    u = find_ops(n, ('unk', 'junk', 'phi'))
    return ', '.join(sorted({str(x.a[0]) for x in u})[:4])
