from rules.common import *
rule = 'every currency operation returns the exact integer or fails, with wrapping operator semantics as well as with overflow checks'
explanation = 'Each arithmetic implementation and method of Currency is summarised for arbitrary operands twice: with native operators wrapping (release profile) and with native operators panicking (debug profile). Both the value and the exact condition under which the function returns at all are compared with integer arithmetic. Summation is decided for every list of up to six symbolic amounts.'
assumptions = ['summation over longer iterators repeats the step decided for short ones']
floor = 20
TC = S.A(S.CUR); U128 = ('int', 'u128'); MAX = INT((1 << 128) - 1)
def val(c): return FLD(c, 0, 0, U128)
def cur(n): return ADT(S.CUR, 0, n)
def inr(x): return AND(GE(x, INT(0)), LE(x, MAX))
EX = {'add': add, 'sub': sub, 'mul': mul, 'div': div, 'rem': rem}
def exact(op, a, b):
    """(defined, value)"""
    if op in ('div', 'rem'): return NOT(EQ0(b)), EX[op](a, b)
    r = EX[op](a, b); return inr(r), r

def decide(P, key, args, want, ok, setup=None):
    """value = want where defined; returns exactly when ok"""
    cs = []
    for prof in ('release', 'debug'):
        I = fresh(P); nested_hook(I); I.profile = prof
        st = St(TRUE, {})
        a = setup(I, st) if setup else args
        r = I.call_key(key, a, st, {})
        if st.pc is not FALSE: cs.append(cmpq.compare(I, S, r, want, AND(ok, st.pc)))
        cs.append(cmpq.compare(I, S, st.pc, ok))
    return both(*cs)

def trait_impls(P):
    """operator traits implemented for Currency: (trait, body key, operand types)"""
    for k, b in P.bodies.items():
        s, tr = b.get('implself'), b.get('impltrait')
        if s is None or not tr or 'root' not in b or b['kind'] == 'Closure': continue
        t = P.ty(s)
        t0 = M.strip(t) if t[0] == 'ref' else t
        if t0 != TC: continue
        yield tr, k, b

def opname(tr, k): return k.rsplit('::', 1)[-1]

def obligations(P, tier):
    fresh(P)
    out = []; seen = set()
    for tr, k, b in trait_impls(P):
        n = opname(tr, k)
        label = '%s for Currency' % tr.rsplit('::', 1)[-1]
        if tr.startswith('core::ops::arith::') or tr.startswith('core::ops::bit::'):
            base = n[:-7] if n.endswith('_assign') else n
            ts = [P.ty(p['ty']) for p in b['params']]
            if base not in EX or len(ts) != 2: continue
            seen.add(base) if not n.endswith('_assign') and M.strip(ts[1]) == TC else None
            rt = M.strip(ts[1])
            label += '<%s>' % tyname(rt)
            def run(k=k, base=base, n=n, rt=rt, P=P):
                a = SYM('a', TC); bb = SYM('b', rt)
                ok, v = exact(base, val(a), val(bb) if rt == TC else bb)
                if not n.endswith('_assign'): return decide(P, k, [a, bb], cur(v), ok)
                cs = []
                for prof in ('release', 'debug'):
                    I = fresh(P); nested_hook(I); I.profile = prof
                    st = St(TRUE, {})
                    c = I.alloc(st, a, TC)
                    I.call_key(k, [mk('mref', c, ()), bb], st, {})
                    cs += [cmpq.compare(I, S, I.load(st, (c, ())), cur(v), AND(ok, st.pc)), cmpq.compare(I, S, st.pc, ok)]
                return both(*cs)
            out.append(Ob(label, where(P, k), rule, guard(run)))
        elif tr.endswith('::Sum'):
            seen.add('sum')
            for m in range(7):
                def run(k=k, m=m):
                    xs = [SYM('x%d' % i, TC) for i in range(m)]
                    tot = INT(0); ok = TRUE
                    for x in xs: tot = add(tot, val(x)); ok = AND(ok, LE(tot, MAX))
                    src = as_seq(SEQ(*[ONE(x) for x in xs])) if xs else mk('seq')
                    return decide_iter(P, k, src, cur(tot), ok)
                out.append(Ob('%s, %d amounts' % (label, m), where(P, k), rule, guard(run)))
    for n in ('add', 'sub', 'mul', 'div', 'rem', 'sum'):
        if n not in seen: out.append(missing('operator ' + n, 'operator %s on Currency' % n))
    for n in ('checked_add', 'checked_sub', 'checked_mul', 'checked_div'):
        k = method(P, S.CUR, n)
        if k is None: out.append(missing(n, 'Currency::' + n)); continue
        def run(k=k, n=n):
            a, b = SYM('a', TC), SYM('b', TC)
            ok, v = exact(n[8:], val(a), val(b))
            return decide(P, k, [a, b], ITE(ok, SOME(cur(v)), NONE), TRUE)
        out.append(Ob('Currency::' + n, where(P, k), rule, guard(run)))
    k = method(P, S.CUR, 'siacoins')
    if k is None: out.append(missing('siacoins', 'Currency::siacoins'))
    else:
        def run(k=k):
            n = SYM('n', ('int', 'u64')); v = mul(n, INT(10 ** 24))
            return decide(P, k, [n], cur(v), LE(v, MAX))
        out.append(Ob('Currency::siacoins', where(P, k), rule, guard(run)))
    for n in ('new', 'zero'):
        k = method(P, S.CUR, n)
        if k is None: out.append(missing(n, 'Currency::' + n)); continue
        def run(k=k, n=n):
            x = SYM('x', U128)
            return decide(P, k, [x] if n == 'new' else [], cur(x if n == 'new' else INT(0)), TRUE)
        out.append(Ob('Currency::' + n, where(P, k), rule, guard(run)))
    conv = 0
    for k, b in P.bodies.items():
        tr = b.get('impltrait') or ''; s = b.get('implself')
        if s is None or 'root' not in b or b['kind'] == 'Closure': continue
        t = M.strip(P.ty(s))
        if tr.endswith('convert::TryInto') and t == TC or tr.endswith('convert::TryFrom') and t[0] == 'int' and M.strip(P.ty(b['params'][0]['ty'])) == TC:
            rt = M.strip(P.ty(b['ret']))
            if rt[0] != 'adt' or rt[1] != RES or M.strip(rt[2][0])[0] != 'int': continue
            it = M.strip(rt[2][0]); conv += 1
            def run(k=k, it=it):
                a = SYM('a', TC)
                lo, hi = RANGES[it[1]]
                I = fresh(P); nested_hook(I); I.profile = 'release'; st = St(TRUE, {})
                r = I.call_key(k, [a], st, {})
                okc = LE(val(a), INT(hi))
                return both(cmpq.compare(I, S, M.isok(r), okc, st.pc), cmpq.compare(I, S, M.okv(r, it), val(a), AND(okc, AND(M.isok(r), st.pc))), cmpq.compare(I, S, st.pc, TRUE))
            out.append(Ob('Currency to ' + it[1], where(P, k), 'conversion fails when the value does not fit', guard(run)))
    if not conv: out.append(missing('conversion', 'conversion of Currency to u64'))
    return out

def decide_iter(P, key, src, want, ok):
    cs = []
    it = ('adt', 'alloc::vec::into_iter::IntoIter', (TC,))
    for prof in ('release', 'debug'):
        I = fresh(P); nested_hook(I); I.profile = prof
        st = St(TRUE, {})
        b = P.bodies[key]
        sub = {}
        for g in b.get('generics', []): sub[g] = it
        r = I.call_key(key, [mk('it', mk('d_slice', src, TC), INT(0))], st, sub)
        if st.pc is not FALSE: cs.append(cmpq.compare(I, S, r, want, AND(ok, st.pc)))
        cs.append(cmpq.compare(I, S, st.pc, ok))
    return both(*cs)
