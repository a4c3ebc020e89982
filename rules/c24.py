from rules.preimages import *
from rules.c22 import arr, byt, keypair, one, PV
rule = 'seed phrases and derived keys are the specified function of all sixteen entropy bytes and the whole index'
explanation = 'The summaries of key derivation, phrase parsing and phrase printing are compared with the specified terms over BLAKE2b, ed25519 and the BIP-39 library (opaque); acceptance and panics are compared as conditions.'
assumptions = ['the bip39 crate implements BIP-39 parsing and printing', 'from_entropy_in succeeds for sixteen bytes of entropy']
floor = 4
SEED = S.A('sia::seed::Seed'); STR = ('str',); U64 = ('int', 'u64')
def lang(P):
    for k, a in P.adts.items():
        if k.startswith('bip39') and k.endswith('::Language'):
            for i, (n, _) in enumerate(a['variants']):
                if n == 'English': return k, i
    return None, None
def trimmed(t, s):
    """blank space around the phrase removed: the library ignores it"""
    import strmodel
    for n in ('trim', 'trim_start', 'trim_end', 'trim_ascii'):
        try:
            if t is strmodel.fn(n, STR, s) or as_seq(t) is as_seq(strmodel.fn(n, STR, as_seq(s))): return True
        except Exception: pass
    return False
def obligations(P, tier):
    fresh(P)
    K = SEED[1]
    def derive(s, i):
        e = H(byt(s, 16))
        return keypair(as_seq(H(CONCAT(as_seq(e), le8(i)))))
    out = [one(P, K, 'private_key', [SEED, U64], derive), one(P, K, 'as_bytes', [SEED], lambda s: FLD(s, 0, 0, arr(16))), one(P, K, 'new', [arr(16)], lambda b: ADT(K, 0, b))]
    k = method(P, K, 'from_mnemonic')
    if k is None: return out + [missing('from_mnemonic', 'Seed::from_mnemonic')]
    def parse():
        s = SYM('s', STR)
        r, I, st = call_method(P, K, 'from_mnemonic', [s])
        ps = find_ops(r, ('call',))
        ps = {c for c in ps if isinstance(c.a[0], str) and c.a[0].startswith('bip39:parse')}
        if len(ps) != 1 or has_unk(r): return ('undecided', 'mnemonic parsing not recognised: %s' % show(r)[:200])
        p = ps.pop()
        if 'without_checksum' in p.a[0]:
            if M.isok(r) is FALSE or any('checksum' in str(c.a[0]) for c in find_ops(r, ('call',)) if c is not p): return ('undecided', 'checksum verified separately')
            return ('violated', 'the checksum of the phrase is not verified (%s)' % p.a[0])
        lk = p.a[1]
        if p.a[0] == 'bip39:parse_in':
            L = lang(P)
            if not (lk.op == 'adt' and show(lk).startswith('Language#0')): return ('violated', 'phrases are not parsed in English: ' + show(lk))
            if p.a[2] is not s and as_seq(p.a[2]) is not as_seq(s) and not trimmed(p.a[2], s): return ('violated', 'the parsed text is not the argument: ' + show(p.a[2]))
        okp = M.isok(p); m = M.okv(p)
        es = {c for c in find_ops(r, ('call',)) if c.a[0] == 'bip39:to_entropy'}
        if len(es) != 1: return ('undecided', 'entropy not recognised')
        e = es.pop()
        ok = AND(okp, EQ(LEN(e), INT(16)))
        c1 = cmpq.compare(I, S, M.isok(r), ok)
        c2 = cmpq.compare(I, S, FLD(M.okv(r, SEED), 0, 0, arr(16)), slice_(as_seq(e), INT(0), INT(16)), ok)
        return both(c1, c2, cmpq.compare(I, S, st.pc, TRUE))
    out.append(Ob('seed::Seed::from_mnemonic', where(P, k), rule, guard(parse)))
    k = method(P, K, 'to_mnemonic')
    if k is None: return out + [missing('to_mnemonic', 'Seed::to_mnemonic')]
    def show_():
        s = SYM('s', SEED)
        r, I, st = call_method(P, K, 'to_mnemonic', [s])
        cs = [c for c in find_ops(r, ('call',)) if isinstance(c.a[0], str) and c.a[0].startswith('bip39:from_entropy')]
        if len(cs) != 1 or has_unk(r): return ('undecided', 'mnemonic printing not recognised: %s' % show(r)[:200])
        c = cs[0]
        if c.a[0] == 'bip39:from_entropy_in' and not show(c.a[1]).startswith('Language#0'): return ('violated', 'phrase not in English')
        ent = c.a[2] if c.a[0] == 'bip39:from_entropy_in' else c.a[1]
        return verdict(cmpq.compare(I, S, as_seq(ent), byt(s, 16)))
    out.append(Ob('seed::Seed::to_mnemonic', where(P, k), 'the phrase encodes all sixteen bytes', guard(show_)))
    return out
