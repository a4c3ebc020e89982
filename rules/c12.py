from rules.preimages import *
rule = 'every derivation returns the BLAKE2b-256 of its protocol preimage; preimage formats of different kinds are never equal'
explanation = 'For each public derivation the analysis computes from the typed program the value-numbered summary of the result, the byte sequence absorbed by the hasher included, and compares its normal form with the protocol preimage. Domain separation is decided on the preimages the program was shown to use: for every pair of derivations of different kinds the byte sequences are aligned from the left, and either their total lengths differ, or a position is found where both are constant and differ, or they are told apart by the type of the parent identifier they start from.'
assumptions = ['BLAKE2b itself (blake2b_simd) is a function of the bytes absorbed and the output length']
floor = 14
U = ('int', 'usize')
SCO, SFO, FCID, BID, TXID, ATID = (S.C + n for n in ('SiacoinOutputID', 'SiafundOutputID', 'FileContractID', 'BlockID', 'TransactionID', 'AttestationID'))

def child(tag): return lambda s, i: CONCAT(text(tag), raw32(s, S.A(TXID)), le8(i))
def proof(b): return lambda s, i: CONCAT(spec16('storage proof'), raw32(s, S.A(FCID)), byts(b), le8(i))
DERIVE = [
    (SFO, 'claim_output_id', [], lambda s: raw32(s, S.A(SFO)), SCO),
    (SFO, 'v2_claim_output_id', [], lambda s: CONCAT(text('sia/id/v2siacoinclaimoutput|'), raw32(s, S.A(SFO))), SCO),
    (BID, 'foundation_output_id', [], lambda s: CONCAT(raw32(s, S.A(BID)), spec16('foundation')), SCO),
    (BID, 'miner_output_id', [U], lambda s, i: CONCAT(raw32(s, S.A(BID)), le8(i)), SCO),
    (TXID, 'v2_siacoin_output_id', [U], child('sia/id/siacoinoutput|'), SCO),
    (TXID, 'v2_siafund_output_id', [U], child('sia/id/siafundoutput|'), SFO),
    (TXID, 'v2_file_contract_id', [U], child('sia/id/filecontract|'), FCID),
    (TXID, 'v2_attestation_id', [U], child('sia/id/attestation|'), ATID),
    (FCID, 'valid_output_id', [U], proof(1), SCO),
    (FCID, 'missed_output_id', [U], proof(0), SCO),
    (FCID, 'v2_renter_output_id', [], lambda s: CONCAT(text('sia/id/v2filecontractoutput|'), raw32(s, S.A(FCID)), le8(INT(0))), SCO),
    (FCID, 'v2_host_output_id', [], lambda s: CONCAT(text('sia/id/v2filecontractoutput|'), raw32(s, S.A(FCID)), le8(INT(1))), SCO),
    (FCID, 'v2_renewal_id', [], lambda s: CONCAT(text('sia/id/v2filecontractrenewal|'), raw32(s, S.A(FCID))), FCID),
]

def obligations(P, tier):
    out = [hash_ob(P, t, n, a, w, r) for t, n, a, w, r in DERIVE]
    def sep():
        I = fresh(P); pre = {}
        for t, n, a, w, r in DERIVE:
            args = [SYM('self', S.A(t))] + [SYM('i', x) for x in a]
            res, I2, st = call_method(P, t, n, args)
            hb = find_ops(res, ('hb',))
            if len(hb) != 1: return ('undecided', 'no unique preimage of %s' % n)
            pre[n] = (t, hb[0].a[2])
        bad = []
        for x in pre:
            for y in pre:
                if x < y and not separated(pre[x][1], pre[y][1]) and pre[x][0] == pre[y][0]: bad.append('%s and %s can hash the same bytes' % (x, y))
        return ('violated', '; '.join(bad)) if bad else ('holds', '%d preimage formats pairwise separated' % len(pre))
    out.append(Ob('domain separation of derived identifiers', 'sia/src/types/common.rs', 'no two derivations from the same kind of identifier can absorb the same bytes', guard(sep)))
    return out

def separated(a, b):
    """two byte-sequence formats that can never be equal"""
    la, lb = LEN(a), LEN(b)
    if la.op == 'int' and lb.op == 'int' and la.a[0] != lb.a[0]: return True
    n = min(x.a[0] for x in (la, lb) if x.op == 'int') if 'int' in (la.op, lb.op) else 48
    for i in range(n):
        x, y = index(a, INT(i), ('int', 'u8')), index(b, INT(i), ('int', 'u8'))
        if x.op == 'int' and y.op == 'int' and x.a[0] != y.a[0]: return True
    return False
