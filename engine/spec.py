"""The protocol tables: what every encoding / hash / schedule has to be.

Written by hand from the Sia protocol (consensus encoding v1 / v2), on the public names of the
crate.  Terms are built with the same constructors the analysis uses, so an implementation that
does what the table says has the *identical* normal form.
"""
from terms import *
import terms as T
import models as M

U8 = ('int', 'u8'); U64 = ('int', 'u64')
C = 'sia::types::common::'; V1 = 'sia::types::v1::'; V2 = 'sia::types::v2::'; CO = 'sia::consensus::'
CUR = 'sia::types::currency::Currency'; SPECF = 'sia::types::specifier::Specifier'
SP = 'sia::types::spendpolicy::SpendPolicy'; SATP = 'sia::types::spendpolicy::SatisfiedPolicy'
WORK = 'sia::types::work::Work'; PUBK = 'sia::signing::PublicKey'; SIGN = 'sia::signing::Signature'
VEC = 'alloc::vec::Vec'; STRING = 'alloc::string::String'
ODT = 'time::offset_date_time::OffsetDateTime'; DUR = 'time::duration::Duration'

def A(k, *t): return ('adt', k, tuple(t))

class Missing(Exception): pass

I = None    # current interpreter

def fidx(ty, name, vi=0):
    a = I.P.adts.get(ty[1])
    if not a: raise Missing('type ' + ty[1])
    fs = a['variants'][vi][1]
    for i, f in enumerate(fs):
        if f[0] == name: return i, I.strip(I.tsub(I.P.ty(f[1]), dict(zip(a['generics'], ty[2]))))
    raise Missing('field %s of %s' % (name, ty[1]))

def vidx(key, name):
    a = I.P.adts.get(key)
    if not a: raise Missing('type ' + key)
    for i, (n, _) in enumerate(a['variants']):
        if n == name: return i
    raise Missing('variant %s of %s' % (name, key))

def F(x, ty, name, vi=0):
    """(value, type) of a public field"""
    i, t = fidx(ty, name, vi)
    return FLD(x, vi, i, t), t

def F0(x, ty, path):
    for p in path.split('.'):
        x, ty = F(x, ty, p)
    return x, ty

# ---------------------------------------------------------------- encodings
HASHES = [C + n for n in ('Hash256', 'SiacoinOutputID', 'AttestationID', 'SiafundOutputID', 'BlockID', 'TransactionID', 'FileContractID', 'Address')]
RAW = {**{h: 32 for h in HASHES}, PUBK: 32, SIGN: 64, C + 'Leaf': 64, SPECF: 16}

FIELDS = {}   # (kind, type) -> ordered public fields, each written with the same encoding
def fields(kinds, key, names):
    for k in kinds.split(): FIELDS[(k, key)] = names.split()
fields('v2', C + 'ChainIndex', 'height id')
fields('v2 v1', C + 'SiacoinOutput', 'value address')
fields('v2', C + 'SiafundOutput', 'value address')
fields('v2', C + 'StateElement', 'leaf_index merkle_proof')
fields('v2', SATP, 'policy signatures preimages')
fields('v2 v1', V1 + 'UnlockKey', 'algorithm key')
fields('v2 v1', V1 + 'UnlockConditions', 'timelock public_keys signatures_required')
fields('v2', V2 + 'Attestation', 'public_key key value signature')
fields('v2', V2 + 'FileContract', 'capacity filesize file_merkle_root proof_height expiration_height renter_output host_output missed_host_value total_collateral renter_public_key host_public_key revision_number renter_signature host_signature')
fields('v2', V2 + 'SiacoinElement', 'state_element id siacoin_output maturity_height')
fields('v2', V2 + 'SiafundElement', 'state_element id siafund_output claim_start')
fields('v2', V2 + 'FileContractElement', 'state_element id v2_file_contract')
fields('v2', V2 + 'ChainIndexElement', 'state_element id chain_index')
fields('v2', V2 + 'SiacoinInput', 'parent satisfied_policy')
fields('v2', V2 + 'SiafundInput', 'parent claim_address satisfied_policy')
fields('v2', V2 + 'FileContractRevision', 'parent revision')
fields('v2', V2 + 'FileContractRenewal', 'final_revision new_contract renter_rollover host_rollover renter_signature host_signature')
fields('v2', V2 + 'StorageProof', 'proof_index leaf proof')
fields('v1', V1 + 'SiacoinInput', 'parent_id unlock_conditions')
fields('v1', V1 + 'SiafundInput', 'parent_id unlock_conditions claim_address')
fields('v1', V1 + 'FileContract', 'file_size file_merkle_root window_start window_end payout valid_proof_outputs missed_proof_outputs unlock_hash revision_number')
fields('v1', V1 + 'FileContractRevision', 'parent_id unlock_conditions revision_number file_size file_merkle_root window_start window_end valid_proof_outputs missed_proof_outputs unlock_hash')
fields('v1', V1 + 'StorageProof', 'parent_id leaf proof')
fields('v1', V1 + 'CoveredFields', 'whole_transaction siacoin_inputs siacoin_outputs file_contracts file_contract_revisions storage_proofs siafund_inputs siafund_outputs miner_fees arbitrary_data signatures')
fields('v1', V1 + 'TransactionSignature', 'parent_id public_key_index timelock covered_fields signature')
fields('v1', V1 + 'Transaction', 'siacoin_inputs siacoin_outputs file_contracts file_contract_revisions storage_proofs siafund_inputs siafund_outputs miner_fees arbitrary_data signatures')

TX2 = 'siacoin_inputs siacoin_outputs siafund_inputs siafund_outputs file_contracts file_contract_revisions file_contract_resolutions attestations arbitrary_data new_foundation_address miner_fee'.split()

SPECIAL = {}
def special(kind, key):
    def d(f): SPECIAL[(kind, key)] = f; return f
    return d

def E(kind, ty, v):
    """sequence written for v"""
    ty = M.strip(ty)
    r = prim(kind, ty, v)
    if r is not None: return r
    return mk('seq', mk('enc', kind, ty, norm_val(v)))

def norm_val(v): return v

def raw(v): return as_seq(v) if v.op != 'ite' else v

def prim(kind, ty, v):
    t = ty[0]
    if t == 'int':
        if ty[1] == 'u8': return SEQ_of(ONE, v)
        if ty[1] in ('u16', 'u32', 'u64', 'usize', 'i16', 'i32', 'i64', 'isize'): return BYTES('le', 8, CAST('u64', v))
        return None
    if t == 'bool' : return SEQ_of(ONE, ITE(v, INT(1), INT(0)) if v.op in ('ite', 'bool') else v)
    if t == 'array' and ty[1] == U8: return raw(v)
    if t in ('slice', 'str') or t == 'adt' and ty[1] in (VEC, STRING):
        et = ty[1] if t == 'slice' else U8 if t == 'str' or ty[1] == STRING else M.strip(ty[2][0])
        return lst(kind, et, v)
    if t == 'adt' and ty[1] == OPT:
        return opt(kind, M.strip(ty[2][0]), v)
    return None

def SEQ_of(p, v):
    return mk('seq', p(v)) if v.op != 'int' else mk('seq', LIT((v.a[0],)))

def lst(kind, et, v):
    n = LEN(v)
    return CONCAT(BYTES('le', 8, CAST('u64', n)), body(kind, et, v))

def body(kind, et, v):
    if v.op == 'ite': return lift('specbody%s%s' % (kind, tyname(et)), lambda x: alt1(body(kind, et, x)), v)
    if et == U8: return raw(v)
    i = fresh_index()
    s = as_seq(v)
    if s.op == 'seq' and len(s.a) != 1 or s.op == 'seq' and s.a[0].op != 'sub':
        out = []
        for p in s.a:
            l = piece_len(p)
            if l.op == 'int' and l.a[0] <= 130:
                for j in range(l.a[0]): out.append(E(kind, et, index(mk('seq', p), INT(j), et)))
            else:
                out.append(mk('seq', MAP(l, i, E(kind, et, index(mk('seq', p), i, et)))))
        return CONCAT(*out) if out else mk('seq')
    return as_seq(SEQ(MAP(LEN(v), i, E(kind, et, index(v, i, et)))))

def alt1(s): return s

def opt(kind, et, v):
    some = ISV(v, 1, 2)
    return ITE(some, CONCAT(mk('seq', LIT((1,))), E(kind, et, FLD(v, 1, 0, et))), mk('seq', LIT((0,))))

def expand(kind, ty, v):
    """full table entry of a named type, or None"""
    ty = M.strip(ty)
    r = prim(kind, ty, v)
    if r is not None: return r
    if ty[0] != 'adt': return None
    k = ty[1]
    if k in RAW and not (kind == 'v1' and k in (PUBK, SIGN)):
        return raw(FLD(v, 0, 0, ('array', U8, (('cval', str(RAW[k])),))) )
    f = SPECIAL.get((kind, k))
    if f: return f(v, ty)
    fs = FIELDS.get((kind, k))
    if fs is None: return None
    out = []
    for n in fs:
        x, t = F(v, ty, n)
        out.append(E(kind, t, x))
    return CONCAT(*out)

@special('v2', CUR)
def _(v, ty): return BYTES('le', 16, FLD(v, 0, 0, ('int', 'u128')))
@special('v1', CUR)
def _(v, ty):
    x = FLD(v, 0, 0, ('int', 'u128'))
    b = mk('bytes', 'be', 16, x) if x.op != 'ite' else None
    if x.op == 'int':
        by = x.a[0].to_bytes((x.a[0].bit_length() + 7) // 8, 'big')
        return CONCAT(BYTES('le', 8, INT(len(by))), mk('seq', LIT(tuple(by))))
    k = FIRST(INT(16), lambda i: NOT(EQ(index(SEQ(SUB(b, INT(0), INT(16))), i), INT(0))))
    n = sub(INT(16), k)
    return CONCAT(BYTES('le', 8, n), mk('seq', SUB(b, k, n)))

@special('v1', C + 'SiafundOutput')
def _(v, ty):
    x, t = F(v, ty, 'value'); a, at = F(v, ty, 'address')
    return CONCAT(E('v1', A(CUR), ADT(CUR, 0, x)), E('v1', at, a), E('v1', A(CUR), ADT(CUR, 0, INT(0))))

@special('v1', C + 'Block')
def _(v, ty):
    out = []
    for n, k in (('parent_id', 'v2'), ('nonce', 'v2'), ('timestamp', 'v2'), ('miner_payouts', 'v1'), ('transactions', 'v1')):
        x, t = F(v, ty, n); out.append(E(k, t, x))
    return CONCAT(*out)

def _work(v, ty): return CONCAT(mk('seq', SUB(mk('call', 'uint::be', v, ('array', U8, (('cval', '32'),))), INT(0), INT(32))))
SPECIAL[('v1', WORK)] = SPECIAL[('v2', WORK)] = _work

@special('v2', ODT)
def _(v, ty): return BYTES('le', 8, CAST('u64', M.unix(v)))
@special('v2', DUR)
def _(v, ty): return BYTES('le', 8, CAST('u64', M.wns(v)))

@special('v2', CO + 'ElementAccumulator')
def _(v, ty):
    n, nt = F(v, ty, 'num_leaves'); t, tt = F(v, ty, 'trees')
    out = [E('v2', nt, n)]
    for i in range(64):
        c = EQ0(band(n, INT(1 << i)))
        out.append(ITE(c, mk('seq'), E('v2', A(C + 'Hash256'), index(t, INT(i), A(C + 'Hash256')))))
    return CONCAT(*out)

@special('v2', CO + 'State')
def _(v, ty):
    out = []
    for n in ('index', 'prev_timestamps', 'depth', 'child_target', 'siafund_pool', 'oak_time', 'oak_target',
              'foundation_primary_address', 'foundation_failsafe_address', 'total_work', 'difficulty', 'oak_work', 'elements', 'attestations'):
        x, t = F(v, ty, n)
        if n == 'prev_timestamps':
            h, _ = F0(v, ty, 'index.height')
            k = child_height(h)
            for i in range(11):
                out.append(ITE(GT(k, INT(i)), E('v2', A(ODT), index(x, INT(i), A(ODT))), mk('seq')))
        else: out.append(E('v2', t, x))
    return CONCAT(*out)

def child_height(h): return CAST('u64', add(h, INT(1)))

@special('v2', V2 + 'FileContractResolution')
def _(v, ty):
    p, pt = F(v, ty, 'parent'); r, rt = F(v, ty, 'resolution')
    alts = [(0, 'Renewal', V2 + 'FileContractRenewal'), (1, 'StorageProof', V2 + 'StorageProof'), (2, 'Expiration', None)]
    res = None
    for tag, vn, t in reversed(alts):
        vi = vidx(rt[1], vn)
        s = mk('seq', LIT((tag,)))
        if t: s = CONCAT(s, E('v2', A(t), FLD(r, vi, 0, A(t))))
        res = s if res is None else ITE(ISV(r, vi, 3), s, res)
    return CONCAT(E('v2', pt, p), res)

def present(n, x, t):
    if n == 'new_foundation_address': return ISV(x, 1, 2)
    if n == 'miner_fee': return NOT(EQ0(FLD(x, 0, 0, ('int', 'u128'))))
    return NOT(EQ0(LEN(x)))

@special('v2', V2 + 'Transaction')
def _(v, ty):
    out = []; mask = INT(0)
    for i, n in enumerate(TX2):
        x, t = F(v, ty, n)
        c = present(n, x, t)
        mask = ITE(c, add(mask, INT(1 << i)), mask)
        s = E('v2', A(C + 'Address'), FLD(x, 1, 0, A(C + 'Address'))) if n == 'new_foundation_address' else E('v2', t, x)
        out.append(ITE(c, s, mk('seq')))
    return CONCAT(mk('seq', LIT((2,))), BYTES('le', 8, mask), *out)

POLICY = [(1, 'Above'), (2, 'After'), (3, 'PublicKey'), (4, 'Hash'), (5, 'Threshold'), (6, 'Opaque'), (7, 'UnlockConditions')]
POLICY_FN = [None]
def policy_body(v):
    res = None
    for tag, vn in reversed(POLICY):
        vi = vidx(SP, vn)
        fs = I.P.adts[SP]['variants'][vi][1]
        x = [FLD(v, vi, j, I.strip(I.P.ty(f[1]))) for j, f in enumerate(fs)]
        t = [I.strip(I.P.ty(f[1])) for f in fs]
        s = mk('seq', LIT((tag,)))
        if vn == 'Threshold':
            i = fresh_index()
            el = mk('seq', mk('enc', 'policy', ('fn',), index(x[1], i, A(SP))))
            s = CONCAT(s, mk('seq', ONE(x[0])), mk('seq', ONE(CAST('u8', LEN(x[1])))), as_seq(SEQ(MAP(LEN(x[1]), i, el))))
        else: s = CONCAT(s, E('v2', t[0], x[0]))
        res = s if res is None else ITE(ISV(v, vi, 7), s, res)
    return res
@special('v2', SP)
def _(v, ty): return CONCAT(mk('seq', LIT((1,))), policy_body(v))

def encodable(kind, ty, v):
    """condition under which the format can hold the value"""
    if ty[0] == 'adt' and ty[1] == SP:
        vi = vidx(SP, 'Threshold')
        fs = I.P.adts[SP]['variants'][vi][1]
        kids = FLD(v, vi, 1, I.strip(I.P.ty(fs[1][1])))
        return OR(NOT(ISV(v, vi, len(I.P.adts[SP]['variants']))), LE(LEN(kids), INT(255)))
    if ty[0] == 'adt' and ty[1] == DUR: return AND(GE(M.wns(v), INT(0)), LE(M.wns(v), INT((1 << 63) - 1)))
    return TRUE

def encode_seq(kind, ty, val):
    return E(kind, ty, val) if prim_ok(ty) else None
def prim_ok(ty):
    t = ty[0]
    return t == 'int' and ty[1] not in ('u128', 'i128') or t in ('bool', 'slice', 'str') or t == 'array' and ty[1] == U8 or t == 'adt' and ty[1] in (VEC, STRING, OPT)
def known(kind, ty):
    ty = M.strip(ty)
    return prim_ok(ty) or ty[0] == 'adt' and ((kind, ty[1]) in FIELDS or (kind, ty[1]) in SPECIAL or ty[1] in RAW)
def flatten1(p):
    """one level of expansion of an enc piece"""
    return expand(p.a[0], p.a[1], p.a[2]) if p.a[1][0] != 'fn' else None

def install(interp):
    global I
    I = interp
    import sys
    M.SPEC = sys.modules[__name__]
