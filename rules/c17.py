from rules.preimages import *
rule = 'the accumulator merges, stores and folds exactly as the Merkle tree over its leaves; the address of unlock conditions is the root over its leaves in order'
explanation = 'The states of the accumulator are partitioned by the lowest clear (adding a leaf) or lowest set (root) bit of the leaf count; in each of the 64 classes the remaining bits and all stored trees are symbolic, so the loops unroll to straight-line hash terms, which are compared with the protocol recursion. The address is then compared, for any number of public keys, with the root over the leaves in order, and, with the accumulator inlined, for every number of keys up to a bound.'
assumptions = ['fewer than 2^64 - 1 leaves are added']
floor = 130
AC = 'sia::merkle::Accumulator'
UC = S.A(S.V1 + 'UnlockConditions'); UK = S.A(S.V1 + 'UnlockKey')
HT = S.A(HASH)
def node(l, r): return ID(HASH, CONCAT(byts(1), raw32(l, HT), raw32(r, HT)))
def leaf(seq): return ID(HASH, CONCAT(byts(0), seq))

def state(P, I, n):
    """an accumulator as new() makes it, with any trees and n leaves"""
    st = St(TRUE, {})
    k = method(P, AC, 'new')
    if k is None: raise NoAnchor('Accumulator::new')
    r = I.call_key(k, [], st, {})
    out = []; at = {}
    for i, f in enumerate(P.adts[AC]['variants'][0][1]):
        t = I.strip(P.ty(f[1]))
        if t[0] == 'array' and 'trees' not in at: at['trees'] = (i, t); out.append(SYM('trees', t))
        elif t == ('int', 'u64') and 'n' not in at: at['n'] = (i, t); out.append(n)
        else: out.append(FLD(r, 0, i, t))
    if len(at) != 2: raise KeyError('accumulator state')
    return ADT(AC, 0, *out), at

def klass(low, k):
    """leaf counts with k low bits set (or clear) below a clear (or set) bit k; the bits above are free"""
    q = SYM('q', ('int', 'u64'))
    return q, LE(q, INT((1 << (63 - k)) - 1)), add(INT((1 << k) - 1 if low == 'ones' else 1 << k), scale(q, 1 << (k + 1)))

def add_leaf(P, k):
    def run():
        I = fresh(P); nested_hook(I)
        q, pc, n = klass('ones', k)
        try: b, at = state(P, I, n)
        except KeyError: return ('undecided', 'representation of the accumulator not recognised')
        st = St(pc, {}); p = I.alloc(st, b)
        h = SYM('h', HT); t = SYM('trees', at['trees'][1])
        key = method(P, AC, 'add_leaf')
        if key is None: raise NoAnchor('Accumulator::add_leaf')
        I.call_key(key, [mk('mref', p, ()), h], st, {})
        s = I.load(st, (p, ()))
        v = h
        for i in range(k): v = node(index(t, INT(i), HT), v)
        want = list(b.a[2:])
        want[at['trees'][0]] = as_seq(SEQ(*[ONE(v) if i == k else ONE(index(t, INT(i), HT)) for i in range(64)]))
        want[at['n'][0]] = add(n, INT(1))
        c = []
        for j in range(64): c.append(cmpq.compare(I, S, index(s.a[2 + at['trees'][0]], INT(j), HT), v if j == k else index(t, INT(j), HT), st.pc, tries=20) if s.op == 'adt' else ('undecided', 'state'))
        c.append(cmpq.compare(I, S, s.a[2 + at['n'][0]] if s.op == 'adt' else s, add(n, INT(1)), st.pc))
        if k < 63: c.append(cmpq.compare(I, S, st.pc, pc))
        return both(*c)
    return run

def root(P, k):
    def run():
        I = fresh(P); nested_hook(I)
        if k == 64: q, pc, n = None, TRUE, INT(0)
        else: q, pc, n = klass('zeros', k)
        try: b, at = state(P, I, n)
        except KeyError: return ('undecided', 'representation of the accumulator not recognised')
        st = St(pc, {})
        t = SYM('trees', at['trees'][1])
        key = method(P, AC, 'root')
        if key is None: raise NoAnchor('Accumulator::root')
        r = I.call_key(key, [b], st, {})
        if k == 64: want = ADT(HASH, 0, zeros(32))
        else:
            want = index(t, INT(k), HT)
            for i in range(k + 1, 64):
                want = ITE(EQ0(band(n, INT(1 << i))), want, node(index(t, INT(i), HT), want))
        return both(cmpq.compare(I, S, r, want, st.pc), cmpq.compare(I, S, st.pc, pc))
    return run

def leaves(v, nkeys=None):
    tl, tt = S.F(v, UC, 'timelock'); ks, kt = S.F(v, UC, 'public_keys'); n, nt = S.F(v, UC, 'signatures_required')
    mid = M.over(ks, UK, lambda e: SEQ(ONE(leaf(S.E('v2', UK, e))))) if nkeys is None else \
        SEQ(*[ONE(leaf(S.E('v2', UK, index(ks, INT(j), UK)))) for j in range(nkeys)])
    return CONCAT(SEQ(ONE(leaf(le8(tl)))), as_seq(mid), SEQ(ONE(leaf(le8(n)))))

def address(P):
    """for any number of keys, with the accumulator as an abstract list of leaves"""
    def run():
        I = fresh(P); nested_hook(I)
        ks = {n: method(P, AC, n) for n in ('new', 'add_leaf', 'root')}
        if None in ks.values(): raise NoAnchor('Accumulator')
        I.hooks[ks['new']] = lambda I_, c, t, a, st, x, fr, rty: mk('sink', 'acc', (), mk('seq'))
        def addl(I_, c, t, a, st, x, fr, rty):
            pl, s = M.follow(I_, st, a[0])
            if s.op != 'sink' or pl is None: return UNK('add_leaf')
            I_.store(st, pl, mk('sink', s.a[0], s.a[1], CONCAT(s.a[2], SEQ(ONE(I_.rval(st, a[1]))))))
            return UNIT
        I.hooks[ks['add_leaf']] = addl
        def rt(I_, c, t, a, st, x, fr, rty):
            s = I_.rval(st, a[0])
            return mk('call', 'merkle_root', s.a[2], HT) if s.op == 'sink' else UNK('root')
        I.hooks[ks['root']] = rt
        v = SYM('self', UC); st = St(TRUE, {})
        k = method(P, S.V1 + 'UnlockConditions', 'address')
        if k is None: raise NoAnchor('UnlockConditions::address')
        r = I.call_key(k, [v], st, {})
        want = ADT(S.C + 'Address', 0, raw32(mk('call', 'merkle_root', leaves(v), HT), HT))
        return both(cmpq.compare(I, S, r, want), cmpq.compare(I, S, st.pc, TRUE))
    return run

def tree(ls):
    """root of the Merkle tree over the leaves: full subtrees of falling size, folded from the right"""
    def full(l): return l[0] if len(l) == 1 else node(full(l[:len(l) // 2]), full(l[len(l) // 2:]))
    peaks = []
    while ls:
        n = 1 << (len(ls).bit_length() - 1)
        peaks.append(full(ls[:n])); ls = ls[n:]
    r = peaks.pop()
    while peaks: r = node(peaks.pop(), r)
    return r

def concrete(P, n):
    def run():
        I = fresh(P); nested_hook(I)
        tys = [S.fidx(UC, x) for x in ('timelock', 'public_keys', 'signatures_required')]
        fs = [None] * 3
        for (i, t), v in zip(tys, (SYM('tl', ('int', 'u64')), as_seq(SEQ(*[ONE(SYM('k%d' % j, UK)) for j in range(n)])) if n else mk('seq'), SYM('sr', ('int', 'u64')))): fs[i] = v
        v = ADT(UC[1], 0, *fs); st = St(TRUE, {})
        k = method(P, S.V1 + 'UnlockConditions', 'address')
        if k is None: raise NoAnchor('UnlockConditions::address')
        r = I.call_key(k, [v], st, {})
        ls = [p.a[0] for p in leaves(v, n).a]
        return both(cmpq.compare(I, S, r, ADT(S.C + 'Address', 0, raw32(tree(ls), HT)), tries=20), cmpq.compare(I, S, st.pc, TRUE))
    return run

def obligations(P, tier):
    fresh(P)
    W = lambda n: where(P, method(P, AC, n) or AC)
    out = [Ob('add_leaf, lowest clear bit %d' % k, W('add_leaf'), 'merges trees 0..k from the bottom up into slot k, other slots and parameters unchanged, count plus one', guard(add_leaf(P, k))) for k in range(64)]
    out += [Ob('root, lowest set bit %d' % k if k < 64 else 'root, no leaves', W('root'), 'folds the occupied trees from lowest to highest', guard(root(P, k))) for k in range(65)]
    wa = where(P, method(P, S.V1 + 'UnlockConditions', 'address') or 'address')
    out.append(Ob('UnlockConditions::address, any number of keys', wa, 'the root over the timelock leaf, one leaf per key in order, and the signature-count leaf', guard(address(P))))
    for n in range(0, 15 if tier == 'quick' else 63): out.append(Ob('UnlockConditions::address with %d keys, accumulator inlined' % n, wa, 'the Merkle root over all leaves', guard(concrete(P, n))))
    return out
