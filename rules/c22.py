from rules.preimages import *
rule = 'verification, signing and key conversion compute the ed25519 function of exactly the given key, hash and signature'
explanation = 'The value-numbered summary of each function is compared with the specified term over the ed25519 primitives (opaque): which bytes become the verification key, the message and the signature, and under what condition the result is true; the condition under which the function returns at all must be the constant true.'
assumptions = ['ed25519_dalek computes ed25519 (its functions are opaque terms); signature checking uses its standard verification']
floor = 10
PK, SG, PV = S.A(S.PUBK), S.A(S.SIGN), S.A('sia::signing::PrivateKey')
HH = S.A(HASH)
def arr(n): return ('array', ('int', 'u8'), (('cval', str(n)),))
def byt(v, n): return as_seq(FLD(v, 0, 0, arr(n)))
def part(v, n, a, b): return slice_(byt(v, n), INT(a), INT(b - a))
def pub(seed): return as_seq(mk('call', 'pubkey', seed, arr(32)))
def keypair(seed): return ADT(PV[1], 0, CONCAT(seed, pub(seed)))

def one(P, tkey, name, argt, want, trait=None, label=None, pick=None, total=True):
    key = pick if pick else method(P, tkey, name, trait)
    label = label or '%s::%s' % (tkey.replace('sia::', ''), name)
    if key is None: return missing(label, 'public function ' + label)
    def run():
        args = [SYM('a%d' % i, t) for i, t in enumerate(argt)]
        I = fresh(P); nested_hook(I); st = St(TRUE, {})
        r = I.call_key(key, args, st, {})
        cs = [cmpq.compare(I, S, r, want(*args))]
        if total: cs.append(cmpq.compare(I, S, st.pc, TRUE))
        return both(*cs)
    return Ob(label, where(P, key), rule, guard(run))

def from_impl(P, tkey, src, name='from', trait='core::convert::From'):
    """From<src> for tkey"""
    for k, b in P.bodies.items():
        if b.get('impltrait') != trait or b.get('implself') is None or 'root' not in b or b['kind'] == 'Closure': continue
        t = P.ty(b['implself'])
        if t[0] == 'adt' and t[1] == tkey and P.ty(b['params'][0]['ty']) == src: return k
    return None

def verify(p, h, s):
    key = byt(p, 32)
    return AND(M.bcall('validpoint', key), M.bcall('edverify', mk('call', 'vk', key, ('adt', 'VerifyingKey', ())), byt(h, 32), mk('call', 'sig', byt(s, 64), ('adt', 'EdSignature', ()))))
def sign(k, h):
    e = mk('call', 'edsign', mk('call', 'sk', part(k, 64, 0, 32), ('adt', 'SigningKey', ())), byt(h, 32), ('adt', 'EdSignature', ()))
    return ADT(S.SIGN, 0, as_seq(mk('call', 'bytes_of', e, arr(64))))

def obligations(P, tier):
    fresh(P)
    K = PV[1]
    out = [one(P, S.PUBK, 'verify', [PK, HH, SG], verify),
           one(P, K, 'sign_hash', [PV, HH], sign),
           one(P, K, 'public_key', [PV], lambda k: ADT(S.PUBK, 0, part(k, 64, 32, 64))),
           one(P, K, 'from_seed', [arr(32)], lambda s: keypair(as_seq(s))),
           one(P, K, 'as_bytes', [PV], lambda k: FLD(k, 0, 0, arr(64))),
           one(P, S.PUBK, 'new', [arr(32)], lambda s: ADT(S.PUBK, 0, s)),
           one(P, S.SIGN, 'new', [arr(64)], lambda s: ADT(S.SIGN, 0, s)),
           one(P, S.SIGN, 'data', [SG], lambda s: FLD(s, 0, 0, arr(64)))]
    for t, src, n, w in ((K, arr(64), 'PrivateKey from 64 bytes', lambda b: ADT(K, 0, b)), (K, HH, 'PrivateKey from a hash', lambda h: keypair(byt(h, 32))), (S.SIGN, arr(64), 'Signature from 64 bytes', lambda b: ADT(S.SIGN, 0, b))):
        k = from_impl(P, t, src)
        out.append(missing(n, n) if k is None else one(P, t, 'from', [src], w, label=n, pick=k))
    for t, ty, n in ((S.PUBK, PK, 32), (S.SIGN, SG, 64)):
        for k, b in P.bodies.items():
            if b.get('impltrait') == 'core::convert::AsRef' and b.get('implself') is not None and 'root' in b and P.ty(b['implself']) == ty:
                out.append(one(P, t, 'as_ref', [ty], lambda v, n=n: FLD(v, 0, 0, arr(n)), label='%s::as_ref' % t.replace('sia::', ''), pick=k))
    return out
