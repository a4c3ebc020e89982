from rules.preimages import *
rule = 'the v2 transaction ID is the BLAKE2b-256 of exactly the semantic content'
explanation = 'The bytes absorbed by the hasher of the v2 transaction ID, computed as a value-numbered summary through every helper and loop (nested members by their own tables), have the normal form of the protocol list of semantic content. Members that must not matter do not occur in that sequence, members that must matter occur in it: both are read off the equal normal form and enumerated member by member.'
assumptions = ['members are encoded by their own implementation, decided under C03']
floor = 10
def obligations(P, tier):
    out = [hash_ob(P, S.V2 + 'Transaction', 'id', [], sem_tx, S.C + 'TransactionID')]
    k = method(P, S.V2 + 'Transaction', 'id')
    if k is None: return out
    def dep(n):
        def run():
            v = SYM('self', TX2)
            r, I, st = call_method(P, S.V2 + 'Transaction', 'id', [v])
            if has_unk(r): return ('undecided', cmpq.why_unk(r))
            x, t = S.F(v, TX2, n)
            return ('holds', '') if occurs(r, x) else ('violated', 'member %s does not influence the transaction ID' % n)
        return run
    for n in S.TX2: out.append(Ob('id commits to ' + n, where(P, k), 'the member occurs in the preimage', guard(dep(n))))
    return out
def occurs(n, x):
    seen = set()
    def go(y):
        if isinstance(y, tuple): return any(go(z) for z in y)
        if not isinstance(y, Node) or y.id in seen: return False
        seen.add(y.id)
        return y is x or any(go(z) for z in y.a)
    return go(n)
