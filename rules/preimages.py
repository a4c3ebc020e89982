"""Hash preimages of the protocol, written as byte-sequence terms."""
from rules.common import *

def text(s): return mk('seq', LIT(tuple(s.encode()))) if s else mk('seq')
def byts(*b): return mk('seq', LIT(tuple(b)))
def spec16(s): return mk('seq', LIT(tuple(s.encode().ljust(16, b'\0'))))
def le8(v): return BYTES('le', 8, CAST('u64', v))
def H(seq): return lift('spechb', lambda s: as_seq(M.HB(32, s)), seq)
def ID(tkey, seq): return ADT(tkey, 0, H(seq))
def raw32(v, ty): return S.expand('v2', ty, v)
def zeros(n): return mk('seq', LIT((0,) * n))

CS = S.A(S.CO + 'ChainState')
HASH = S.C + 'Hash256'

def prefix(cs):
    """replay-protection prefix for the chain state"""
    h, _ = S.F0(cs, CS, 'state.index.height')
    v2, _ = S.F0(cs, CS, 'network.hardfork_v2.allow_height')
    fo, _ = S.F0(cs, CS, 'network.hardfork_foundation.height')
    asic, _ = S.F0(cs, CS, 'network.hardfork_asic.height')
    return ITE(GE(h, v2), byts(2), ITE(GE(h, fo), byts(1), ITE(GE(h, asic), byts(0), mk('seq'))))

def members(kind, v, ty, names, zero=()):
    out = []
    for n in names.split():
        x, t = S.F(v, ty, n)
        if n in zero:
            out.append(zeros(64)); continue
        out.append(S.E(kind, t, x))
    return CONCAT(*out)

def counted(v, ty, name, f):
    """length prefix and f(element) for each element of a list member"""
    x, t = S.F(v, ty, name)
    et = M.strip(t[2][0])
    return CONCAT(S.E('v2', ('int', 'u64'), LEN(x)), each(x, et, f))

def each(x, et, f):
    return M.over(x, et, lambda e: f(e, et))

# ------------------------------------------------------------ v2 semantics
FC2 = S.A(S.V2 + 'FileContract'); REN = S.A(S.V2 + 'FileContractRenewal'); ATT = S.A(S.V2 + 'Attestation')
TX2 = S.A(S.V2 + 'Transaction'); SP2 = S.A(S.V2 + 'StorageProof')

def sem_fc(v):
    return members('v2', v, FC2, 'capacity filesize file_merkle_root proof_height expiration_height renter_output host_output missed_host_value total_collateral renter_public_key host_public_key revision_number renter_signature host_signature', ('renter_signature', 'host_signature'))

def sem_renewal(v):
    a, _ = S.F(v, REN, 'final_revision'); b, _ = S.F(v, REN, 'new_contract')
    return CONCAT(sem_fc(a), sem_fc(b), members('v2', v, REN, 'renter_rollover host_rollover'), zeros(64), zeros(64))

def sem_attestation(v): return CONCAT(members('v2', v, ATT, 'public_key key value'), zeros(64))

def sem_proof(v):
    pi, pt = S.F(v, SP2, 'proof_index')
    se, st = S.F(pi, pt, 'state_element')
    li, lt = S.F(se, st, 'leaf_index')
    i, it = S.F(pi, pt, 'id'); ci, ct = S.F(pi, pt, 'chain_index')
    return CONCAT(S.E('v2', lt, li), le8(INT(0)), S.E('v2', it, i), S.E('v2', ct, ci), members('v2', v, SP2, 'leaf proof'))

def parent_id(v, ty):
    p, pt = S.F(v, ty, 'parent')
    return S.F(p, pt, 'id')

def sem_tx(v):
    def id_of(e, et):
        x, t = parent_id(e, et); return S.E('v2', t, x)
    def rev(e, et):
        r, _ = S.F(e, et, 'revision'); return CONCAT(id_of(e, et), sem_fc(r))
    def res(e, et):
        r, rt = S.F(e, et, 'resolution')
        k = rt[1]; n = len(S.I.P.adts[k]['variants'])
        a, b = S.vidx(k, 'Renewal'), S.vidx(k, 'StorageProof')
        s = ITE(ISV(r, a, n), sem_renewal(FLD(r, a, 0, REN)), ITE(ISV(r, b, n), sem_proof(FLD(r, b, 0, SP2)), mk('seq')))
        return CONCAT(id_of(e, et), s)
    return CONCAT(
        counted(v, TX2, 'siacoin_inputs', id_of), members('v2', v, TX2, 'siacoin_outputs'),
        counted(v, TX2, 'siafund_inputs', id_of), members('v2', v, TX2, 'siafund_outputs'),
        counted(v, TX2, 'file_contracts', lambda e, et: sem_fc(e)),
        counted(v, TX2, 'file_contract_revisions', rev),
        counted(v, TX2, 'file_contract_resolutions', res),
        members('v2', v, TX2, 'attestations arbitrary_data new_foundation_address miner_fee'))

# ------------------------------------------------------------ v1
TX1 = S.A(S.V1 + 'Transaction')
NOSIG = 'siacoin_inputs siacoin_outputs file_contracts file_contract_revisions storage_proofs siafund_inputs siafund_outputs miner_fees arbitrary_data'
def no_sigs(v): return members('v1', v, TX1, NOSIG)

# ------------------------------------------------------------ obligations
def sym(n, t): return SYM(n, t)

def hash_ob(P, tkey, name, argt, want, rtkey, trait=None, sub=None):
    """the method returns rtkey(H(want(self, args)))"""
    key = method(P, tkey, name, trait)
    label = '%s::%s' % (tkey.replace('sia::', ''), name)
    if key is None: return missing(label, 'public function ' + label)
    def run():
        args = [SYM('self', S.A(tkey))] + [SYM('a%d' % i, t) for i, t in enumerate(argt)]
        r, I, st = call_method(P, tkey, name, args, trait)
        return verdict(cmpq.compare(I, S, r, ID(rtkey, want(*args))))
    return Ob(label, where(P, key), 'the value returned is the BLAKE2b-256 of the protocol preimage', guard(run))
