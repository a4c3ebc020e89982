from rules.preimages import *
rule = 'v1 transaction, output and contract IDs are BLAKE2b-256 of the signature-free encoding with the specifier and index of their kind'
explanation = 'The value-numbered summary of each function, including the bytes absorbed by the hasher through every helper, is compared with the protocol preimage.'
assumptions = ['members are encoded by their own implementation, decided under C03']
floor = 5
T1 = S.V1 + 'Transaction'; U = ('int', 'usize')
def obligations(P, tier):
    out = [hash_ob(P, T1, 'id', [], no_sigs, S.C + 'TransactionID')]
    for n, sp, r in (('siacoin_output_id', 'siacoin output', 'SiacoinOutputID'), ('siafund_output_id', 'siafund output', 'SiafundOutputID'), ('file_contract_id', 'file contract', 'FileContractID')):
        out.append(hash_ob(P, T1, n, [U], lambda s, i, sp=sp: CONCAT(spec16(sp), no_sigs(s), le8(i)), S.C + r))
    key = method(P, T1, 'encode_no_sigs')
    if key is None: out.append(missing('encode_no_sigs', 'v1 Transaction::encode_no_sigs')); return out
    def run():
        I = fresh(P); nested_hook(I); st = St(TRUE, {})
        w = I.alloc(st, mk('sink', 'w', (), mk('seq'))); v = SYM('self', TX1)
        r = I.call_key(key, [v, mk('mref', w, ())], st, {})
        s = I.load(st, (w, ()))
        return both(cmpq.compare(I, S, s.a[2], no_sigs(v), M.isok(r)), cmpq.compare(I, S, M.isok(r), TRUE))
    out.append(Ob('v1 Transaction::encode_no_sigs', where(P, key), 'writes every member but the signatures', run))
    return out
