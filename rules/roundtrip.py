from rules.common import *
rule = 'decode(encode(x) ++ rest) has the normal form Ok(x) and leaves exactly rest'
explanation = 'The decoder of each type is interpreted abstractly on the symbolic byte sequence its encoder writes, followed by an arbitrary tail; the result must have the normal form of the original value and the reader must stand at the tail. Both sides are summaries computed from the typed program for arbitrary member values and lengths.'
assumptions = ['nested members round-trip by their own obligation (induction over the type structure)', 'values in the stated domain: encode succeeds; unset accumulator slots and unused history timestamps hold their default']

def obligations(P, kind, need):
    te, td = (ENC2, DEC2) if kind == 'v2' else (ENC1, DEC1)
    I0 = fresh(P)
    es = {I0.strip(t): im for im, t in impls(P, te)}; ds = {I0.strip(t): im for im, t in impls(P, td)}
    out = []; have = set()
    for t in es:
        if t not in ds: continue
        if t[0] == 'slice': continue
        have.add(tyname(t))
        out.append(Ob('%s %s' % (kind, tyname(t)), where(P, impl_fn(ds[t], 'decode', 'decode_v1')), rule, lambda t=t: one(P, es[t], ds[t], t, kind)))
    for n in need:
        if n not in have: out.append(missing('%s %s' % (kind, n), '%s encoder and decoder of %s' % (kind, n)))
    return out

def one(P, im_e, im_d, t, kind):
    okc, res, after, self, tail, I = compose(P, im_e, im_d, t, kind)
    want = normalised(t, self)
    c1 = cmpq.compare(I, S, res, OK(want), okc)
    rest = after.a[2] if after.op == 'rd' else lift('rdrest', lambda z: z.a[2] if z.op == 'rd' else UNK('reader'), after) if after.op == 'ite' else UNK('reader')
    c2 = cmpq.compare(I, S, rest, mk('seq', tail), AND(okc, M.isok(res)) if not has_unk(res) else okc)
    r = both(c1, c2)
    if r[0] == 'undecided':
        w = concrete(P, im_e, im_d, t, kind)
        if w: return ('violated', w)
    return r

def concrete(P, im_e, im_d, t, kind, tries=24, budget=60):
    """the decoder on the spelled-out bytes of single values (when it cannot be summarised for all of them)"""
    import time, teval
    from teval import Ev, Unknown, Undef
    t0 = time.time()
    r, w, self, I = summarise_encoder(P, im_e, t, kind)
    okc = M.isok(r); want = OK(normalised(t, self))
    for seed in range(tries):
        if time.time() - t0 > budget: break
        e = Ev(I, S, seed, [])
        e.atoms = True; e.short = seed % 4 != 3
        try:
            if okc is not TRUE and not e.truth(okc): continue
            b = e.seqv(w)
            if len(b) > 6000: continue
            cw = e.canon(e.ev(want))
        except (Unknown, Undef, RecursionError): continue
        for tail in ([0] * 80, [1] * 80):
            I2 = fresh(P); st = St(TRUE, {}); I2.finite = (1 << 20, 1, 3)[seed % 3]
            whole = [int(x) for x in b] + tail
            rd = I2.alloc(st, mk('rd', 'seq', 'r', as_seq(SEQ(LIT(tuple(whole))))))
            syms = {}
            def hook(I_, c, targs, args, st, x, fr, rty):
                pl, q = M.follow(I_, st, args[0]); ty = I_.strip(targs[0]) if targs else None
                if q.op == 'rd' and q.a[0] == 'seq' and pl is not None:
                    n = LEN(q.a[2])
                    pos = len(whole) - n.a[0] if n.op == 'int' else -1
                    at = getattr(b[pos], 'atom', None) if 0 <= pos < len(b) else None
                    if at and ty and (at[1] == ty or at[1][0] == 'fn' and ty[0] == 'adt' and ty[1] == S.SP) and pos + at[3] <= len(whole):
                        s = constant(I_, e, at[2], ty, syms)
                        I_.store(st, pl, mk('rd', 'seq', q.a[1], as_seq(SEQ(LIT(tuple(whole[pos + at[3]:]))) if pos + at[3] < len(whole) else mk('seq'))))
                        return OK(s)
                return M.None_decode(Hooked(I_, c, targs, args, st, x, rty), kind, ty) if ty and I_.find_impl(c['trait'], (ty,)) else None
            for k in M.TR_DEC: I2.hooks[k] = hook
            try: res = I2.call_key(impl_fn(im_d, 'decode', 'decode_v1'), [mk('mref', rd, ())], st, {})
            except Exception: continue
            e2 = Ev(I2, S, seed, [])
            for s, v in syms.items(): e2.memo[s.id] = v
            if st.pc is FALSE: return 'decoding its own encoding panics: %s' % teval.brief(('L',) + tuple(whole[:len(b)]), 400)
            try:
                if st.pc is not TRUE and not e2.truth(st.pc): return 'decoding its own encoding panics: %s' % teval.brief(('L',) + tuple(whole[:len(b)]), 400)
                got = e2.canon(e2.ev(res))
            except (Unknown, Undef, RecursionError): continue
            concrete.n += 1
            if got != cw: return 'the encoding %s is read back as %s instead of %s' % (teval.brief(('L',) + tuple(whole[:len(b)]), 300), teval.brief(got, 500), teval.brief(cw, 500))
            after = I2.load(st, (rd, ()))
            try: left = list(e2.seqv(after.a[2])) if after.op == 'rd' else None
            except (Unknown, Undef, RecursionError): left = None
            if left is not None and left != tail: return 'reading back the encoding %s leaves %d bytes instead of %d' % (teval.brief(('L',) + tuple(whole[:len(b)]), 300), len(left), len(tail))
    return None

concrete.n = 0
class Hooked:
    def __init__(self, I, c, targs, args, st, x, rty): self.I, self.c, self.targs, self.args, self.st, self.x, self.rty = I, c, targs, args, st, x, rty

def normalised(t, v):
    """the encodable content of a value: slots that are not part of it hold their default"""
    if t[0] == 'adt' and t[1] == S.CO + 'ElementAccumulator':
        n, _ = S.F(v, t, 'num_leaves'); tr, tt = S.F(v, t, 'trees')
        H = S.A(S.C + 'Hash256')
        zero = ADT(S.C + 'Hash256', 0, mk('seq', LIT((0,) * 32)))
        f = [None] * 2
        i, _ = S.fidx(t, 'num_leaves'); j, _ = S.fidx(t, 'trees')
        f[i] = n
        f[j] = as_seq(SEQ(*[ONE(ITE(EQ0(band(n, INT(1 << k))), zero, index(tr, INT(k), H))) for k in range(64)]))
        return ADT(t[1], 0, *f)
    if t[0] == 'adt' and t[1] == S.CO + 'State':
        h, _ = S.F0(v, t, 'index.height'); ts, _ = S.F(v, t, 'prev_timestamps')
        k = S.child_height(h)
        j, _ = S.fidx(t, 'prev_timestamps')
        fs = S.I.P.adts[t[1]]['variants'][0][1]
        out = []
        for m, f in enumerate(fs):
            x = S.F(v, t, f[0])[0]
            if m == j: x = as_seq(SEQ(*[ONE(ITE(GT(k, INT(i)), index(ts, INT(i), S.A(S.ODT)), M.fromunix(INT(0)))) for i in range(11)]))
            out.append(x)
        return ADT(t[1], 0, *out)
    return v
