from rules.preimages import *
from rules.c22 import from_impl, arr
import api
rule = 'the value built, or the bytes returned, are exactly what the arguments say'
explanation = 'The value-numbered summary of each constructor, conversion and default is compared with the value named by its arguments, for every argument at once, and the condition under which it returns at all must be the constant true (for a threshold policy: that no sub-policy is a v1 one).'
assumptions = ['blake2b_simd::Hash::as_bytes returns the digest; hex::encode is lower-case hexadecimal']
floor = 75
U128, U64, U8 = ('int', 'u128'), ('int', 'u64'), ('int', 'u8')
IDS = [S.C + n for n in ('Hash256', 'SiacoinOutputID', 'SiafundOutputID', 'AttestationID', 'BlockID', 'TransactionID', 'FileContractID')]
AD = S.C + 'Address'
FROM, ASREF, DEF, DISP = 'core::convert::From', 'core::convert::AsRef', 'core::default::Default', 'core::fmt::Display'
VEC = lambda t: ('adt', 'alloc::vec::Vec', (t, ('adt', 'alloc::alloc::Global', ())))

def bodies(P, trait, selfty):
    for k, b in P.bodies.items():
        if b.get('impltrait') == trait and b.get('implself') is not None and 'root' in b and b['kind'] != 'Closure' and P.ty(b['implself']) == selfty: yield k, b

def find(P, trait, selfty, name, src=None, ret=None):
    for k, b in bodies(P, trait, selfty):
        if k.rsplit('::', 1)[-1] != name: continue
        if src is not None and P.ty(b['params'][0]['ty']) != src: continue
        if ret is not None and P.ty(b['ret']) != ret: continue
        return k
    return None

def ob(P, label, key, argt, want, pc=None, cond=None, raw=False):
    if key is None: return missing(label, label)
    def run():
        args = [SYM('a%d' % i, t) for i, t in enumerate(argt)]
        I = fresh(P); nested_hook(I)
        pre = cond(*args) if cond else TRUE
        st = St(pre, {})
        r = I.call_key(key, args, st, {})
        if r.op == 'mref': r = I.load(st, r.a[0]) if isinstance(r.a[0], tuple) else r
        w = want(*args)
        if raw: r, w = as_seq(r), as_seq(w)
        return both(cmpq.compare(I, S, r, w, st.pc), cmpq.compare(I, S, st.pc, pc(*args) if pc else pre))
    return Ob(label, where(P, key), rule, guard(run))

def sole(v, n): return FLD(v, 0, 0, arr(n))
def build(ty, **kw):
    A = S_P[0].adts[ty]
    fs = A['variants'][0][1]
    return ADT(ty, 0, *[kw[f[0]] for f in fs])
S_P = [None]

def obligations(P, tier):
    fresh(P); S_P[0] = P
    out = []
    short = lambda k: k.replace('sia::', '')
    for t in IDS + [AD]:
        ty = S.A(t)
        n = short(t)
        mkv = lambda b, t=t: ADT(t, 0, b)
        out.append(ob(P, n + '::new', method(P, t, 'new'), [arr(32)], mkv))
        out.append(ob(P, n + ' from 32 bytes', find(P, FROM, ty, 'from', arr(32)), [arr(32)], mkv))
        k = find(P, ASREF, ty, 'as_ref', None, ('ref', False, ('slice', U8)))
        out.append(ob(P, n + ' as bytes', k, [ty], lambda v: sole(v, 32), raw=True))
        k = find(P, DEF, ty, 'default')
        if k and not P.bodies[k].get('derived'): out.append(ob(P, n + ' default', k, [], lambda t=t: ADT(t, 0, zeros(32))))
        if t == AD: continue
        k = find(P, ASREF, ty, 'as_ref', None, ('ref', False, arr(32)))
        out.append(ob(P, n + ' as array', k, [ty], lambda v: sole(v, 32), raw=True))
        out.append(ob(P, n + ' into 32 bytes', find(P, FROM, arr(32), 'from', ty), [ty], lambda v: sole(v, 32), raw=True))
        hk = next((k for k, b in bodies(P, FROM, ty) if P.ty(b['params'][0]['ty'])[0] == 'adt' and 'blake2b' in P.ty(b['params'][0]['ty'])[1]), None)
        def hashrun(k=hk, t=t):
            I = fresh(P); nested_hook(I); st = St(TRUE, {})
            h = SYM('h', arr(32))
            d = as_seq(M.HB(32, as_seq(SYM('m', VEC(U8)))))
            r = I.call_key(k, [d], st, {})
            return both(cmpq.compare(I, S, r, ADT(t, 0, d)), cmpq.compare(I, S, st.pc, TRUE))
        out.append(missing(n + ' from a digest', 'From<Hash>') if hk is None else Ob(n + ' from a digest', where(P, hk), rule, guard(hashrun)))
    k = find(P, FROM, S.A(AD), 'from', ('ref', False, ('slice', U8)))
    sl = ('slice', U8)
    out.append(ob(P, 'types::common::Address from a byte slice', k, [sl], lambda b: ADT(AD, 0, as_seq(b)), pc=lambda b: EQ(LEN(b), INT(32)), cond=lambda b: EQ(LEN(b), INT(32))))
    LEAF = S.C + 'Leaf'
    out.append(ob(P, 'types::common::Leaf from 64 bytes', find(P, FROM, S.A(LEAF), 'from', arr(64)), [arr(64)], lambda b: ADT(LEAF, 0, b)))
    SG = S.A(S.SIGN)
    out.append(ob(P, 'signing::Signature default', find(P, DEF, SG, 'default'), [], lambda: ADT(S.SIGN, 0, zeros(64))))
    # amounts
    CU = S.A(S.CUR)
    out.append(ob(P, 'types::currency::Currency::new', method(P, S.CUR, 'new'), [U128], lambda v: ADT(S.CUR, 0, v)))
    out.append(ob(P, 'types::currency::Currency::zero', method(P, S.CUR, 'zero'), [], lambda: ADT(S.CUR, 0, INT(0))))
    out.append(ob(P, 'types::currency::Currency deref', find(P, 'core::ops::deref::Deref', CU, 'deref'), [CU], lambda v: FLD(v, 0, 0, U128)))
    k = find(P, 'core::convert::TryInto', CU, 'try_into')
    def narrow(k=k):
        v = SYM('v', CU); I = fresh(P); nested_hook(I); st = St(TRUE, {})
        r = I.call_key(k, [v], st, {})
        u = FLD(v, 0, 0, U128)
        fits = LE(u, INT(2 ** 64 - 1))
        return both(cmpq.compare(I, S, M.isok(r), fits), cmpq.compare(I, S, M.okv(r, U64), CAST('u64', u), fits), cmpq.compare(I, S, st.pc, TRUE))
    out.append(missing('Currency into u64', 'TryInto<u64>') if k is None else Ob('types::currency::Currency into u64', where(P, k), rule, guard(narrow)))
    def mutate(k):
        def run():
            I = fresh(P); nested_hook(I); st = St(TRUE, {})
            v, n = SYM('v', CU), SYM('n', U128)
            c = I.alloc(st, v, CU)
            r = I.call_key(k, [mk('mref', c, ())], st, {})
            if r.op != 'mref': return ('undecided', 'not a place: ' + show(r)[:80])
            I.store(st, (r.a[0], r.a[1]), n)
            return both(cmpq.compare(I, S, I.load(st, (c, ())), ADT(S.CUR, 0, n)), cmpq.compare(I, S, st.pc, TRUE))
        return run
    k = find(P, 'core::ops::deref::DerefMut', CU, 'deref_mut')
    out.append(missing('Currency deref_mut', 'DerefMut') if k is None else Ob('types::currency::Currency deref_mut', where(P, k), rule, guard(mutate(k))))
    # specifiers
    SPK = S.SPECF
    out.append(ob(P, 'Specifier::new', method(P, SPK, 'new'), [arr(16)], lambda b: ADT(SPK, 0, b)))
    out.append(ob(P, 'Specifier::as_bytes', method(P, SPK, 'as_bytes'), [S.A(SPK)], lambda v: sole(v, 16), raw=True))
    def padded(s):
        b = as_seq(s)
        n = ITE(GE(LEN(b), INT(17)), INT(16), LEN(b))
        return ADT(SPK, 0, CONCAT(slice_(b, INT(0), n), as_seq(SEQ(REP(sub(INT(16), n), INT(0))))))
    out.append(ob(P, 'Specifier from text', find(P, FROM, S.A(SPK), 'from', ('ref', False, ('str',))), [('str',)], padded))
    # policies and unlock conditions
    PV = lambda n, *a: ADT(S.SP, S.vidx(S.SP, n), *a)
    for name, t, v in (('above', U64, 'Above'), ('after', S.ODT if isinstance(S.ODT, tuple) else S.A(S.ODT), 'After'), ('public_key', S.A(S.PUBK), 'PublicKey'), ('hash', S.A(S.C + 'Hash256'), 'Hash'),
                       ('unlock_conditions', S.A(S.V1 + 'UnlockConditions'), 'UnlockConditions')):
        out.append(ob(P, 'SpendPolicy::' + name, method(P, S.SP, name), [t], lambda x, v=v: PV(v, x)))
    LV = VEC(S.A(S.SP))
    tk = method(P, S.SP, 'threshold')
    def threshold():
        n, l = SYM('n', U8), SYM('l', LV)
        I = fresh(P); nested_hook(I); st = St(TRUE, {})
        r = I.call_key(tk, [n, l], st, {})
        cs = [cmpq.compare(I, S, r, PV('Threshold', n, l), st.pc)]
        # spelled-out lists: refused exactly when a v1 policy is among the sub-policies
        uc = S.vidx(S.SP, 'UnlockConditions')
        each = {v: ADT(S.SP, v, *[SYM('c%d%d' % (v, i), I.field_ty(S.A(S.SP), v, i)) for i in range(len(P.adts[S.SP]['variants'][v][1]))]) for v in range(7)}
        a = each[0]
        lists = [[]] + [[each[v]] for v in each] + [[a, each[v]] for v in each] + [[each[v], a] for v in each] + [[a, a, each[v]] for v in each] + [[a, each[v], a, each[4]] for v in each]
        for vs in lists:
            for n in (0, 1, len(vs), 255):
                I = fresh(P); nested_hook(I); st = St(TRUE, {})
                q = as_seq(SEQ(*[ONE(x) for x in vs])) if vs else mk('seq')
                r = I.call_key(tk, [INT(n), q], st, {})
                bad = any(x.a[1] == uc for x in vs)
                if st.pc is not (FALSE if bad else TRUE):
                    if st.pc.op != 'bool': cs.append(('undecided', show(st.pc)[:80])); break
                    return ('violated', 'threshold %d of the kinds %s %s' % (n, [x.a[1] for x in vs], 'is accepted' if bad else 'is refused'))
                if not bad: cs.append(cmpq.compare(I, S, r, PV('Threshold', INT(n), q)))
        return both(*cs)
    out.append(missing('SpendPolicy::threshold', 'SpendPolicy::threshold') if tk is None else Ob('SpendPolicy::threshold', where(P, tk), rule, guard(threshold)))
    UC, UK = S.V1 + 'UnlockConditions', S.V1 + 'UnlockKey'
    out.append(ob(P, 'UnlockConditions::new', method(P, UC, 'new'), [U64, VEC(S.A(UK)), U64], lambda t, k, n: build(UC, timelock=t, public_keys=k, signatures_required=n)))
    ukey = lambda p: build(UK, algorithm=ADT(SPK, 0, spec16('ed25519')), key=as_seq(sole(p, 32)))
    out.append(ob(P, 'UnlockKey from a public key', find(P, FROM, S.A(UK), 'from', S.A(S.PUBK)), [S.A(S.PUBK)], ukey))
    out.append(ob(P, 'UnlockConditions::standard_unlock_conditions', method(P, UC, 'standard_unlock_conditions'), [S.A(S.PUBK)],
                  lambda p: build(UC, timelock=INT(0), public_keys=as_seq(SEQ(ONE(ukey(p)))), signatures_required=INT(1))))
    CF_ = S.V1 + 'CoveredFields'
    E = mk('seq')
    def covered(): return ADT(CF_, 0, *[TRUE if f[0] == 'whole_transaction' else E for f in P.adts[CF_]['variants'][0][1]])
    out.append(ob(P, 'CoveredFields::whole_transaction', method(P, CF_, 'whole_transaction'), [], covered))
    EA = S.CO + 'ElementAccumulator'
    k = find(P, DEF, S.A(EA), 'default')
    out.append(ob(P, 'ElementAccumulator default', k, [], lambda: build(EA, num_leaves=INT(0), trees=as_seq(SEQ(REP(INT(64), ADT(S.C + 'Hash256', 0, zeros(32))))))))
    # derived defaults stay derived (every field empty), others were compared above
    for im in P.impls:
        if im['trait'] != DEF: continue
        ty = P._arg(im['args'][0])
        if ty[0] != 'adt' or not im['derived']: continue
        out.append(Ob('%s default' % short(ty[1]), im['span'], 'derived default: every field is its own default', lambda: ('holds', 'derived')))
    # a chain index is printed as height:id
    k = find(P, DISP, S.A(S.C + 'ChainIndex'), 'fmt')
    def printed():
        ci = SYM('ci', S.A(S.C + 'ChainIndex'))
        I = fresh(P); st = St(TRUE, {})
        from rules.c21 import shown, raw
        got = shown(I, S.A(S.C + 'ChainIndex'), ci, st)
        if got is None: return ('undecided', 'no text')
        h, _ = S.F0(ci, S.A(S.C + 'ChainIndex'), 'height'); b, _ = S.F0(ci, S.A(S.C + 'ChainIndex'), 'id')
        want = CONCAT(M.dec(h) , text(':'), as_seq(mk('hex', raw(b, 32))))
        return both(cmpq.compare(I, S, as_seq(got), want), cmpq.compare(I, S, st.pc, TRUE))
    out.append(missing('ChainIndex is printed', 'Display') if k is None else Ob('types::common::ChainIndex is printed as height and id', where(P, k), rule, guard(printed)))
    return out
