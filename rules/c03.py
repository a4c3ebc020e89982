from rules.common import *
rule = 'the byte sequence written by every encode implementation has the normal form of its protocol table'
explanation = 'For each implementation of the v1/v2 encoder traits the analysis computes, from the typed program, the sequence of bytes it writes as a function of its argument (value-numbered summary, loops summarised as maps) and compares its normal form with the hand-written protocol table; members whose type has its own table are opaque pieces.'
assumptions = ['nested members are encoded by their own implementation, which is checked by its own obligation']
floor = 78

# public types that must have an encoder of the kind
NEED = [('v2', t) for t in 'u8 bool OffsetDateTime Duration u16 u32 usize i16 i32 i64 u64 String PublicKey Signature Hash256 SiacoinOutputID AttestationID SiafundOutputID BlockID TransactionID FileContractID ChainIndex Address SiacoinOutput SiafundOutput Leaf StateElement Currency Specifier SpendPolicy SatisfiedPolicy Work UnlockKey UnlockConditions Attestation FileContract SiacoinElement SiafundElement FileContractElement ChainIndexElement SiacoinInput SiafundInput FileContractRevision FileContractRenewal StorageProof FileContractResolution Transaction ElementAccumulator State'.split()] + \
       [('v1', t) for t in 'u8 bool u16 u32 usize i16 i32 i64 u64 String Hash256 SiacoinOutputID AttestationID SiafundOutputID BlockID TransactionID FileContractID Block Address SiacoinOutput SiafundOutput Leaf Currency Specifier Work UnlockKey UnlockConditions SiacoinInput SiafundInput FileContract FileContractRevision StorageProof CoveredFields TransactionSignature Transaction'.split()]

def obligations(P, tier):
    out = []; have = set()
    for tr, kind in ((ENC2, 'v2'), (ENC1, 'v1')):
        for im, ty in impls(P, tr):
            key = impl_fn(im, 'encode', 'encode_v1')
            I0 = fresh(P)
            nm = tyname(I0.strip(ty)); have.add((kind, nm))
            if not S.known(kind, I0.strip(ty)): continue
            out.append(Ob('%s %s' % (kind, nm), where(P, key), rule, lambda im=im, ty=ty, kind=kind: one(P, im, ty, kind)))
    for kind, nm in NEED:
        if (kind, nm) not in have: out.append(missing('%s %s' % (kind, nm), '%s encoder of %s' % (kind, nm)))
    return out

def one(P, im, ty, kind):
    r, w, self, I = summarise_encoder(P, im, ty, kind)
    want = S.expand(kind, ty, self)
    cond = M.isok(r)
    if ty[0] == 'adt' and ty[1] == S.SP: w = cmpq.rename_fn(S, w)
    c = cmpq.compare(I, S, w, want, cond)
    # encoding may refuse only what the format cannot hold
    c2 = cmpq.compare(I, S, cond, S.encodable(kind, ty, self))
    return both(c, c2)
