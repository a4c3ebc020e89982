from rules.preimages import *
from rules.c21 import hexval, DIGITS
import teval, hashlib
rule = 'a literal of the mandated form denotes the value it spells, in a constant as well; any other literal is refused'
explanation = 'A module that uses every exported literal macro is added to the crate in memory and type-checked with it; a macro that no longer accepts a well-formed literal, or not in a constant, makes it fail to build. In the typed expansions the literal is replaced by an arbitrary text: each byte of the value is shown to depend on its own two characters only and decided for every pair of digits, the acceptance condition is compared with the form (length, prefix, digits), and texts of any other length are refused. No part of the crate is run.'
assumptions = ['a macro treats one literal like any other of the same kind (it matches a single `literal` fragment)']
technique = 'compile-fail witness in memory + abstract interpretation of the typed expansions (THIR) with the literal abstracted'
floor = 24
U8 = ('int', 'u8')
h = hashlib.sha256(b'verif').hexdigest()
MACROS = [('address', S.C + 'Address', '', 76, 'crate::types::Address'), ('hash_256', S.C + 'Hash256', '', 64, 'crate::types::Hash256'), ('siacoin_id', S.C + 'SiacoinOutputID', '', 64, 'crate::types::SiacoinOutputID'),
          ('siafund_id', S.C + 'SiafundOutputID', '', 64, 'crate::types::SiafundOutputID'), ('contract_id', S.C + 'FileContractID', '', 64, 'crate::types::FileContractID'),
          ('transaction_id', S.C + 'TransactionID', '', 64, 'crate::types::TransactionID'), ('block_id', S.C + 'BlockID', '', 64, 'crate::types::BlockID'),
          ('public_key', S.PUBK, 'ed25519:', 72, 'crate::signing::PublicKey')]
def marker(n, pre):
    if n == 76: return h + hashlib.blake2b(bytes.fromhex(h), digest_size=32).hexdigest()[:12]
    return pre + h
probe = '#[doc(hidden)]\n#[allow(warnings)]\npub mod verif_probe {\n' + ''.join(
    '    pub fn %s() -> %s { crate::%s!("%s") }\n' % (m, ty, m, marker(n, pre)) + '    pub const C_%s: %s = crate::%s!("%s");\n' % (m.upper(), ty, m, pre + ('0123456789abcdefABCDEF' * 4)[:n - len(pre)])
    for m, _, pre, n, ty in MACROS) + '}\n'
probe_dump, probe_error = None, ''
def sampled(I, got, cs, pre, np, hints):
    """characters for which the acceptance condition is not the form (the two diagrams are not combined)"""
    for seed in range(400):
        e = teval.Ev(I, S, seed, hints=hints)
        try: a, v = bool(e.ev(got)), [e.ev(c) for c in cs]
        except (teval.Unknown, teval.Undef): continue
        b = all(x == ord(p) for x, p in zip(v, pre)) and all(x in DIGITS for x in v[np:np + 64])
        if a != b: return ('differ', 'the literal %s is %s' % (bytes(v), 'accepted' if a else 'refused'))
    return ('undecided', 'conditions of another shape')
def chars(text): return as_seq(SEQ(*[ONE(c) for c in text]))

def obligations(P, tier):
    out = []
    loc = 'sia/src/macros.rs'
    if probe_dump is None:
        err = ' '.join(l.strip() for l in probe_error.splitlines() if l.startswith('error'))[:600]
        why = next((m for m, *_ in MACROS if 'C_%s' % m.upper() in probe_error or '%s!' % m in probe_error or 'fn %s(' % m in probe_error), 'a literal macro')
        return [Ob('well-formed literals build', loc, rule, lambda: ('violated', '%s: a module that uses the literal macros on well-formed literals does not build: %s' % (why, err)))] + [Ob('-%d' % i, loc, rule, lambda: ('undecided', 'no typed program')) for i in range(floor)]
    from ir import Program
    P2 = Program(probe_dump)
    fresh(P2)
    def key(m): return next((k for k in P2.bodies if k.endswith('verif_probe::' + m)), None)
    def call(m, mk_, text, pre=TRUE):
        I = fresh(P2); I.texts = {mk_: text}
        st = St(pre, {})
        # constants inside the expansion are evaluated whenever the program is built: their conditions count
        for k, b in P2.bodies.items():
            if k.startswith(key(m) + '::') and b['kind'] == 'Const': I.call_key(k, [], st, {})
        r = I.call_key(key(m), [], st, {})
        return r, I, st
    for m, tk, pre, n, _ in MACROS:
        mark = marker(n, pre); np = len(pre)
        out.append(Ob('%s!: builds, in a constant too' % m, loc, rule, lambda: ('holds', 'type-checked')))
        def form(m=m, tk=tk, pre=pre, n=n, mark=mark, np=np):
            cs = [SYM('c%d' % i, U8) for i in range(n)]
            r, I, st = call(m, mark, chars(cs))
            hs = [hexval(c) for c in cs[np:np + 64]]
            if st.pc is FALSE: return ('violated', 'every literal is refused')
            def pick(i):
                def f(e, r):
                    if i < np: return ord(pre[i]) if r(12) else b'Ee:;64\xe5'[r(7)]
                    if i >= np + 64: return r(256)
                    return DIGITS[r(22)] if r(500) else b'gG@`/:'[r(6)]
                return f
            hints = {'c%d' % i: pick(i) for i in range(n)}
            def part(i):
                """one pair of characters, or the prefix, the others fixed"""
                w = np if i < np else 2
                q = [INT(ord(x)) for x in (mark[:np] + '0' * (n - np))]
                q[i:i + w] = cs[i:i + w]
                _, I1, st1 = call(m, mark, chars(q))
                ok1 = TRUE
                if i < np:
                    for j in range(np)[::-1]: ok1 = AND(EQ(cs[j], INT(ord(pre[j]))), ok1)
                else: ok1 = AND(M.issome(hs[i - np]), M.issome(hs[i - np + 1]))
                if st1.pc is ok1: return True
                e = cmpq.compare(I1, S, st1.pc, ok1, tries=300, hints={'c%d' % j: ((lambda e, r, j=j: ord(pre[j]) if r(6) else r(256)) if j < np else (lambda e, r: b'0123456789abcdefABCDEFgG@`/:'[r(28)])) for j in range(i, i + w)})
                return ('violated', 'characters %d to %d: %s' % (i, i + w - 1, e[1])) if e[0] == 'differ' else False
            c = None
            todo = ([0] if np else []) + list(range(np, np + 64, 2))
            first = [part(i) for i in todo[:2]]
            if all(x is True for x in first):
                ok = TRUE
                for x in hs[::-1]: ok = AND(M.issome(x), ok)
                for i in range(np)[::-1]: ok = AND(EQ(cs[i], INT(ord(pre[i]))), ok)
                if st.pc is ok: c = ('equal', 'identical')
            if c is None:
                for x in first + [None] * (len(todo) - 2):
                    if isinstance(x, tuple): return x
                for i in todo[2:]:
                    x = part(i)
                    if isinstance(x, tuple): return x
            if c is None: c = sampled(I, st.pc, cs, pre, np, hints)
            if c[0] == 'differ': return verdict(c)
            if c[0] == 'differ': return verdict(c)
            b = as_seq(FLD(r, 0, 0, ('array', U8, (('cval', '32'),))))
            if LEN(b) is not INT(32): return ('undecided', 'length of the result')
            for i in range(32):
                x = index(b, INT(i), U8)
                own = cs[np + 2 * i:np + 2 * i + 2]
                if has_unk(x): return ('undecided', 'byte %d' % i)
                for y in find_ops(x, ('sym',)):
                    if y not in own: return ('undecided', 'byte %d mentions %s' % (i, show(y))) if not depends(I, x, own, cs) else ('violated', 'byte %d depends on a character other than its two' % i)
                for hi in DIGITS:
                    for lo in DIGITS:
                        e = teval.Ev(I, S, 0); e.memo[own[0].id] = hi; e.memo[own[1].id] = lo
                        try: got = e.ev(x)
                        except teval.Unknown: return ('undecided', 'byte %d' % i)
                        except teval.Undef: got = None
                        if got != int(chr(hi) + chr(lo), 16): return ('violated', 'digits %d and %d, %c%c, give %s' % (2 * i, 2 * i + 1, hi, lo, got))
            return verdict(c)
        out.append(Ob('%s!: value and form' % m, loc, rule, guard(form), limit=200))
        def other(m=m, n=n, mark=mark, np=np, pre=pre):
            t = as_seq(SYM('t', ('str',)))
            r, I, st = call(m, mark, t, NOT(EQ(LEN(t), INT(n))))
            g = st.pc
            if g is FALSE: return ('holds', 'identical')
            def hint(e, r):
                k = [0, 2, 40, 63, 64, 65, 66, 71, 72, 73, 74, 75, 76, 77, 78, 80, 128, 130][r(18)]
                return (pre.encode() if r(2) else b'') + bytes(DIGITS[r(22)] for _ in range(k))
            return verdict(cmpq.compare(I, S, g, FALSE, tries=300, hints={'t': hint}))
        out.append(Ob('%s!: other lengths' % m, loc, rule, guard(other)))
    return out

def depends(I, x, own, cs):
    """is the value for the same two digits different when other characters change?"""
    vals = set()
    for seed in range(40):
        e = teval.Ev(I, S, seed)
        for i, c in enumerate(cs): e.memo[c.id] = DIGITS[(i * 7 + seed * (c not in own)) % 22]
        try: vals.add(e.ev(x))
        except (teval.Unknown, teval.Undef): return False
    return len(vals) > 1
