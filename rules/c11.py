from rules.preimages import *
rule = 'each v2 signature hash is the BLAKE2b-256 of its own distinguisher, the replay prefix and the semantic content with signatures zeroed'
explanation = 'The value-numbered summary of each signature hash, through every helper, is compared with the protocol preimage; the four preimages found in the program are then compared pairwise for a constant position at which they differ.'
assumptions = ['members are encoded by their own implementation, decided under C03']
floor = 5
from rules.c12 import separated
KINDS = [('Transaction', 'input_sig_hash', 'sia/sig/input|', sem_tx), ('FileContract', 'sig_hash', 'sia/sig/filecontract|', sem_fc),
         ('FileContractRenewal', 'sig_hash', 'sia/sig/filecontractrenewal|', sem_renewal), ('Attestation', 'sig_hash', 'sia/sig/attestation|', sem_attestation)]
def obligations(P, tier):
    out = [hash_ob(P, S.V2 + t, n, [CS], lambda s, cs, d=d, f=f: CONCAT(text(d), prefix(cs), f(s)), HASH) for t, n, d, f in KINDS]
    def sep():
        pre = {}
        for t, n, d, f in KINDS:
            r, I, st = call_method(P, S.V2 + t, n, [SYM('self', S.A(S.V2 + t)), SYM('cs', CS)])
            hb = find_ops(r, ('hb',))
            pre[t] = [h.a[2] for h in hb]
        bad = ['%s and %s' % (x, y) for x in pre for y in pre if x < y for p in pre[x] for q in pre[y] if not separated(p, q)]
        return ('violated', 'signature hashes share a distinguisher: ' + bad[0]) if bad else ('holds', '')
    out.append(Ob('domain separation of signature hashes', 'sia/src/types/v2.rs', 'no two kinds of signature hash can absorb the same bytes', guard(sep)))
    return out
