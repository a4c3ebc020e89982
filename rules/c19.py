from rules.preimages import *
import teval
rule = 'one tag and one name per policy kind; the address is the hash of the distinguisher and the encoding with opaque children'
explanation = 'The address function is summarised for an arbitrary policy with the address of a nested policy and of unlock conditions kept as calls, and compared with its definition: the contained address, the unlock-condition address, or the hash of the distinguisher and the version-2 encoding, children of a threshold being replaced by opaque policies that hold their address. The binary encoder and decoder and the JSON writer and reader of policies are each compared with one table of tags and names, for every kind and in both directions.'
assumptions = ['the address of unlock conditions is decided by C17', 'nested policies are encoded and written by the same functions (induction on the depth)']
floor = 14
SP = S.SP; AD = S.C + 'Address'; UC = S.V1 + 'UnlockConditions'
VSP = ('adt', 'alloc::vec::Vec', (S.A(SP),))
def kind(v, n): return ISV(v, S.vidx(SP, n), 7)
def part_(v, n, i, t): return FLD(v, S.vidx(SP, n), i, t)

def uc_addr(u): return mk('call', 'uc_address', u, S.A(AD))
def sp_addr(v):
    """address of a nested policy"""
    if v.op == 'ite': return lift('sp_addr', sp_addr, v)
    if v.op in ('unk', 'undef'): return v
    a = part_(v, 'Opaque', 0, S.A(AD)); u = part_(v, 'UnlockConditions', 0, S.A(UC))
    return ITE(kind(v, 'Opaque'), a, ITE(kind(v, 'UnlockConditions'), uc_addr(u) if u.op != 'undef' else u, mk('call', 'sp_address', v, S.A(AD))))
def opaque(a): return ADT(SP, S.vidx(SP, 'Opaque'), a)
def definition(v):
    ch = part_(v, 'Threshold', 1, VSP)
    kids = M.over(ch, S.A(SP), lambda e: SEQ(ONE(opaque(sp_addr(e)))))
    t = ADT(SP, S.vidx(SP, 'Threshold'), part_(v, 'Threshold', 0, ('int', 'u8')), kids)
    h = lambda q: ADT(AD, 0, slice_(as_seq(M.HB(32, CONCAT(text('sia/address|'), S.E('v2', S.A(SP), q)))), INT(0), INT(32)))
    return ITE(kind(v, 'Opaque'), part_(v, 'Opaque', 0, S.A(AD)), ITE(kind(v, 'UnlockConditions'), uc_addr(part_(v, 'UnlockConditions', 0, S.A(UC))), ITE(kind(v, 'Threshold'), h(t), h(v))))

def hooks(P, I):
    ka, ku = method(P, SP, 'address'), method(P, UC, 'address')
    if ka is None: raise NoAnchor('SpendPolicy::address')
    if ku is None: raise NoAnchor('UnlockConditions::address')
    I.hooks[ka] = lambda I_, c, t, a, st, x, fr, rty: sp_addr(I_.rval(st, a[0]))
    I.hooks[ku] = lambda I_, c, t, a, st, x, fr, rty: M.LS('uca', lambda z: z if z.op in ('unk', 'undef') else uc_addr(z), I_.rval(st, a[0]))
    return ka

def obligations(P, tier):
    fresh(P)
    teval.Ev.FUNS = dict(teval.Ev.FUNS)
    if P.adts.get(SP) is None: return [missing('SpendPolicy', 'sia::types::SpendPolicy')]
    p = SYM('policy', S.A(SP))
    teval.Ev.FUNS['sp_address'] = ((p,), definition(p))
    out = []
    names = [n for _, n in S.POLICY]
    def address(mkv, cond):
        def run():
            I = fresh(P); nested_hook(I)
            v = mkv(); c = cond(v); st = St(c, {})
            r = I.call_key(hooks(P, I), [v], st, {})
            # a threshold of more children than the format can hold has no address
            return both(cmpq.compare(I, S, r, definition(v), st.pc, tries=400 if tier == 'thorough' else 160), cmpq.compare(I, S, st.pc, c, S.encodable('v2', S.A(SP), v)))
        return guard(run)
    wa = where(P, method(P, SP, 'address') or SP)
    for n in names:
        fs = P.adts[SP]['variants'][S.vidx(SP, n)][1]
        tys = [M.strip(P.ty(f[1])) for f in fs]
        out.append(Ob('address: %s' % n, wa, rule, address(lambda n=n, tys=tys: ADT(SP, S.vidx(SP, n), *[SYM('%s%d' % (n, i), t) for i, t in enumerate(tys)]), lambda v: TRUE)))
    out.append(Ob('address: any policy', wa, rule, address(lambda: SYM('self', S.A(SP)), lambda v: TRUE)))
    def stable(n):
        def run():
            # replacing the children of a threshold by their opaque form keeps the address
            I = fresh(P); nested_hook(I)
            of = SYM('of', ('int', 'u8')); ch = [SYM('child%d' % j, S.A(SP)) for j in range(n)]
            rs = []
            for q in (ch, [opaque(sp_addr(c)) for c in ch], [c if j % 2 else opaque(sp_addr(c)) for j, c in enumerate(ch)]):
                I = fresh(P); nested_hook(I); st = St(TRUE, {})
                k = hooks(P, I)
                v = ADT(SP, S.vidx(SP, 'Threshold'), of, as_seq(SEQ(*[ONE(x) for x in q])) if q else mk('seq'))
                rs.append(I.call_key(k, [v], st, {}))
            return both(cmpq.compare(I, S, rs[1], rs[0]), cmpq.compare(I, S, rs[2], rs[0]))
        return guard(run)
    for n in (1, 2, 3): out.append(Ob('address: threshold of %d, children made opaque' % n, wa, rule, stable(n)))
    from rules import c01, c03, c06, c20
    for m, w in ((c03, ''), (c01, ' decodes'), (c06, ' accepted forms'), (c20, ' JSON')):
        for o in m.obligations(P, tier):
            if 'SpendPolicy' in o.key.split(':')[0].split(' ') or 'types::spendpolicy::SpendPolicy' in o.key:
                o.key = 'tags:%s %s' % (w, o.key); out.append(o)
    return out
