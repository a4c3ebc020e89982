from rules.preimages import *
rule = 'the hash covers exactly the declared members with the replay prefix before each input; an index out of range is an error'
explanation = 'The value-numbered summaries of the two functions, loops included, are compared with the protocol preimage: the bytes absorbed by the hasher under the condition of success, and the condition of success itself with the condition that every listed index is in range, for lists of any length.'
assumptions = ['members are encoded by their own implementation, decided under C03']
floor = 13
T1 = S.V1 + 'Transaction'; U64 = ('int', 'u64'); CF = S.A(S.V1 + 'CoveredFields')

def with_prefix(v, name, cs):
    x, t = S.F(v, TX1, name)
    et = M.strip(t[2][0])
    return CONCAT(le8(LEN(x)), each(x, et, lambda e, _: CONCAT(prefix(cs), S.E('v1', et, e))))

def whole(v, cs, pid, ki, tl):
    m = lambda names: members('v1', v, TX1, names)
    return CONCAT(with_prefix(v, 'siacoin_inputs', cs), m('siacoin_outputs file_contracts file_contract_revisions storage_proofs'),
                  with_prefix(v, 'siafund_inputs', cs), m('siafund_outputs miner_fees arbitrary_data'), pid, le8(ki), le8(tl))

LISTS = 'siacoin_inputs siacoin_outputs file_contracts file_contract_revisions storage_proofs siafund_inputs siafund_outputs miner_fees arbitrary_data signatures'.split()
def partial(v, cs, cf):
    out = []; ok = TRUE
    for n in LISTS:
        l, lt = S.F(cf, CF, n); x, t = S.F(v, TX1, n)
        et = M.strip(t[2][0]); it = M.strip(lt[2][0])
        def el(ix, _, n=n, et=et, x=x):
            s = S.E('v1', et, index(x, ix, et))
            return CONCAT(prefix(cs), s) if n in ('siacoin_inputs', 'siafund_inputs') else s
        out.append(each(l, it, el))
        k = fresh_index()
        ok = AND(ok, NOT(ANY(LEN(l), k, GE(index(l, k, it), LEN(x)))))
    return CONCAT(*out), ok

def obligations(P, tier):
    out = []
    k = method(P, T1, 'whole_sig_hash')
    if k is None: out.append(missing('whole_sig_hash', 'v1 Transaction::whole_sig_hash'))
    else:
        for nm, pt in (('Hash256', S.A(HASH)), ('SiacoinOutputID', S.A(S.C + 'SiacoinOutputID')), ('FileContractID', S.A(S.C + 'FileContractID'))):
            def run(pt=pt):
                v, cs, pid, ki, tl = SYM('self', TX1), SYM('cs', CS), SYM('pid', pt), SYM('ki', U64), SYM('tl', U64)
                I = fresh(P); nested_hook(I); st = St(TRUE, {})
                g = [x for x in P.bodies[k]['generics'] if x[0] == 'T' or True]
                r = I.call_key(k, [v, cs, pid, ki, tl], st, {n: pt for n in P.bodies[k]['generics']})
                ok = M.isok(r)
                want = ID(HASH, whole(v, cs, raw32(pid, pt), ki, tl))
                return both(cmpq.compare(I, S, ok, TRUE), cmpq.compare(I, S, FLD(r, 0, 0, S.A(HASH)), want, ok))
            out.append(Ob('whole_sig_hash with parent ' + nm, where(P, k), rule, run))
    k2 = method(P, T1, 'partial_sig_hash')
    if k2 is None: out.append(missing('partial_sig_hash', 'v1 Transaction::partial_sig_hash'))
    else:
        hints = {n: picks for n in LISTS}
        def one(only):
            def run():
                fresh(P); v, cs = SYM('self', TX1), SYM('cs', CS)
                fs = []
                for i in range(len(P.adts[CF[1]]['variants'][0][1])):
                    fn, ft, _ = P.adts[CF[1]]['variants'][0][1][i]
                    t = S.F(SYM('cf', CF), CF, fn)[1]
                    fs.append(SYM(fn, t) if fn not in LISTS or only in (None, fn) else mk('seq'))
                cf = ADT(CF[1], 0, *fs)
                r, I, st = call_method(P, T1, 'partial_sig_hash', [v, cs, cf])
                w, okw = partial(v, cs, cf)
                ok = M.isok(r)
                return both(cmpq.compare(I, S, AND(st.pc, ok), okw, hints=hints), cmpq.compare(I, S, FLD(r, 0, 0, S.A(HASH)), ID(HASH, w), okw, hints=hints), cmpq.compare(I, S, st.pc, TRUE, hints=hints))
            return run
        out.append(Ob('partial_sig_hash', where(P, k2), rule, one(None)))
        for n in LISTS: out.append(Ob('partial_sig_hash of ' + n, where(P, k2), rule, one(n)))
    return out

def picks(e, r):
    """lists of indices, mostly small ones"""
    z = r(12)
    n = r(4) if z < 7 else r(9) if z < 9 else 0 if z < 10 else ([x for x in e.smallpool if x < 400] or [5])[-1 - r(min(3, len([x for x in e.smallpool if x < 400]) or 1))] + r(2)
    hi = 2 + r(3) if z % 4 else 1
    return [r(hi) for _ in range(n)]
