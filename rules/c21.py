from rules.preimages import *
from rules import texts as X
import serde_model as J, strmodel, teval
rule = 'a text is accepted exactly when it has the mandated form, with the value it spells; printing gives that form'
explanation = 'Every string parser and the JSON string reader of identifiers, addresses, leaves, public keys, signatures and unlock keys is summarised for an arbitrary text and compared with the grammar (prefix, length, hexadecimal digits, checksum) as a decision over all texts; the printing functions are summarised for an arbitrary value, and parsing the printed text must give the value back. Differences are witnessed by concrete texts.'
assumptions = ['hex::encode, hex::decode and hex::decode_to_slice convert lower-case or upper-case hexadecimal as documented',
               'algorithm names of unlock keys longer than a specifier are outside the property']
floor = 40
U8 = ('int', 'u8')
DIGITS = b'0123456789abcdefABCDEF'
IDS = [S.C + n for n in ('Hash256', 'SiacoinOutputID', 'AttestationID', 'SiafundOutputID', 'BlockID', 'TransactionID', 'FileContractID')]
ADDR = S.C + 'Address'; LEAF = S.C + 'Leaf'; UK = S.V1 + 'UnlockKey'
DISP = 'core::fmt::Display'

def arr(n): return ('array', U8, (('cval', str(n)),))
def raw(v, n): return as_seq(FLD(v, 0, 0, arr(n)))
def hasch(s, c=58): return M.bcall('hasch', s, INT(c))
def split(s):
    """(has a colon, before it, after it)"""
    at = mk('call', 'findch', s, INT(58), ('int', 'usize'))
    return hasch(s), M.substr(s, INT(0), at), M.substr(s, add(at, INT(1)), sub(sub(LEN(s), at), INT(1)))
def whole(s): return as_seq(s)
def unhex(s, n=None):
    """(well-formed, bytes)"""
    ok = M.bcall('ishex', s)
    if n is not None: ok = AND(EQ(LEN(s), INT(2 * n)), ok)
    return ok, as_seq(SEQ(SUB(mk('call', 'unhex', s, M.VECU8), INT(0), INT(n) if n is not None else div(LEN(s), INT(2)))))
def either(ok, v): return ITE(ok, OK(v), ERR(UNIT))

def p_id(tk):
    def f(s):
        c, _, b = split(s)
        def g(z):
            ok, v = unhex(z, 32)
            return either(ok, ADT(tk, 0, v))
        return ITE(c, g(b), g(s))
    return f
def p_fixed(tk, n):
    def f(s):
        ok, v = unhex(s, n)
        return either(ok, ADT(tk, 0, v))
    return f
def p_half(tk, n):
    # the same grammar: hexadecimal text has an even length
    def f(s):
        ok, v = unhex(s)
        return either(AND(EQ(div(LEN(s), INT(2)), INT(n)), ok), ADT(tk, 0, v))
    return f
def p_addr(s):
    ok, v = unhex(s, 38)
    a, c = slice_(v, INT(0), INT(32)), slice_(v, INT(32), INT(6))
    good = EQ(slice_(as_seq(M.HB(32, a)), INT(0), INT(6)), c)
    return either(AND(ok, good), ADT(ADDR, 0, a))
def p_pk(s):
    n = len('ed25519:')
    pre = AND(GE(LEN(s), INT(n)), EQ(M.substr(s, INT(0), INT(n)), J.text('ed25519:')))
    ok, v = unhex(M.substr(s, INT(n), sub(LEN(s), INT(n))), 32)
    return either(AND(pre, ok), ADT(S.PUBK, 0, v))
def p_uk(s):
    c, a, b = split(s)
    ok, v = unhex(b)
    return either(AND(c, ok), ADT(UK, 0, ADT(S.SPECF, 0, CONCAT(a, as_seq(SEQ(REP(sub(INT(16), LEN(a)), INT(0)))))), v))
def uk_dom(s):
    c, a, b = split(s)
    return OR(NOT(c), LE(LEN(a), INT(16)))

def checked(e, r):
    b = bytes(r(256) for _ in range(32))
    c = bytes(e.seqv(M.HB(32, as_seq(SEQ(LIT(tuple(b)))))))[:6]
    return (b + c).hex().encode()
def badsum(e, r):
    b = bytearray(bytes.fromhex(checked(e, r).decode()))
    b[32 + r(6)] ^= 1 << r(8)
    if r(2): b[32 + r(6)] ^= 1 << r(8)
    if r(4) == 0:
        b = bytearray(bytes.fromhex(checked(e, r).decode())); k = 1 + r(5)
        b[32:] = b[32 + k:] + b[32:32 + k] if r(2) else bytes(b[32:])[::-1]
    return bytes(b).hex().encode()
def fixed(n, pre=b''): return lambda e, r: pre + X.hexes(r, 2 * n)
def ids(e, r): return [b'', b'', b'h:', b'bid:', b'txid:', b':', b'a:b:'][r(7)] + X.hexes(r, 64)
def uks(e, r): return [b'ed25519', b'entropy', b'', b'x', b'0123456789abcdef', b'a:b', b'ED25519'][r(7)] + b':' + X.hexes(r, 2 * [0, 1, 2, 31, 32, 33, 64][r(7)])

FORMS = {LEAF: (p_fixed(LEAF, 64), X.text(fixed(64))), S.SIGN: (p_fixed(S.SIGN, 64), X.text(fixed(64))),
         ADDR: (p_addr, X.text(checked, checked, badsum)), S.PUBK: (p_pk, X.text(fixed(32, b'ed25519:'), fixed(32, b'ed25519:'), fixed(32, b'ED25519:'), fixed(32, b'ed2551a:'), fixed(32, b'x:'))),
         UK: (p_uk, X.text(uks))}
for k in IDS: FORMS[k] = (p_id(k), X.text(ids))

def plain(r):
    """errors are not told apart"""
    return lift('plain', lambda z: ERR(UNIT) if z.op == 'adt' and z.a[0] == RES and z.a[1] == 1 else z, r) if r.op == 'ite' or r.op == 'adt' else ITE(M.isok(r), OK(M.okv(r, None)), ERR(UNIT))

class Cx: pass
def shown(I, ty, v, st):
    cx = Cx(); cx.I = I; cx.st = st; cx.x = None; cx.v = lambda i: v
    return M.render(cx, ty, v)
def printed(tk, v):
    if tk in IDS: return as_seq(mk('hex', raw(v, 32)))
    if tk in (LEAF, S.SIGN): return as_seq(mk('hex', raw(v, 64)))
    if tk == S.PUBK: return CONCAT(J.text('ed25519:'), as_seq(mk('hex', raw(v, 32))))
    if tk == ADDR:
        b = raw(v, 32)
        return as_seq(mk('hex', CONCAT(b, slice_(as_seq(M.HB(32, b)), INT(0), INT(6)))))
    from rules import c20
    return M.okv(c20.uk_doc(None, S.A(tk), v), J.VT).a[2]

def hexval(c):
    r = NONE
    for lo, hi, base in ((65, 70, 10), (97, 102, 10), (48, 57, 0)):
        r = ITE(AND(GE(c, INT(lo)), LE(c, INT(hi))), SOME(add(sub(c, INT(lo)), INT(base))), r)
    return r

def obligations(P, tier):
    fresh(P)
    tries = 4000 if tier == 'thorough' else 700
    out = []
    de = {M.strip(ty)[1]: im for im, ty in impls(P, J.DESK) if M.strip(ty)[0] == 'adt'}
    s = SYM('text', J.STR)
    t = as_seq(s)
    for tk, (spec, hint) in FORMS.items():
        ty = S.A(tk); short = tk.replace('sia::', '')
        if P.adts.get(tk) is None: out.append(missing('%s exists' % short, 'public type ' + short)); continue
        dom = uk_dom(t) if tk == UK else TRUE
        def accept(run, tk=tk, spec=spec, hint=hint, dom=dom):
            r, I, st = run()
            r = plain(r)
            half = p_half(tk, 64)(t) if tk in (LEAF, S.SIGN) else None
            c = ('equal', '') if half is not None and cmpq.equal(S, r, half) else compare(I, r, spec(t), dom, tries, hint)
            return both(c, compare(I, st.pc, dom, dom, tries, hint))
        if tk != S.PUBK:
            k = method(P, tk, 'parse_string')
            def run(k=k, dom=dom):
                if k is None: raise NoAnchor('parse_string')
                I = fresh(P); nested_hook(I); st = St(dom, {})
                return I.call_key(k, [s], st, {}), I, st
            out.append(Ob('%s: parse_string' % short, where(P, k or tk), rule, guard(lambda run=run, a=accept: a(run)), limit=200))
        if tk not in de: out.append(missing('%s: JSON' % short, 'Deserialize for ' + short)); continue
        jk = impl_fn(de[tk], 'deserialize')
        def jrun(jk=jk, dom=dom):
            I = fresh(P); nested_hook(I); J.install(I); st = St(dom, {})
            b = P.bodies[jk]
            return I.call_key(jk, [J.des(TRUE, J.jstr(t))], st, {g: J.DT for g in b['generics'] if not g.startswith("'")}), I, st
        out.append(Ob('%s: JSON text' % short, where(P, jk), rule, guard(lambda run=jrun, a=accept: a(run)), limit=200))
        dk = method(P, tk, 'fmt', DISP)
        def pr(tk=tk, ty=ty):
            I = fresh(P); nested_hook(I); st = St(TRUE, {})
            v = SYM('v', ty)
            if I.find_impl(DISP, (ty,)) is None: raise NoAnchor('Display for ' + tk)
            return both(cmpq.compare(I, S, shown(I, ty, v, st), printed(tk, v), tries=200), cmpq.compare(I, S, st.pc, TRUE))
        out.append(Ob('%s: printed form' % short, where(P, dk or tk), rule, guard(pr)))
        vals = [('', SYM('v', ty))]
        if tk == UK: vals = [(' (algorithm %r)' % a, ADT(tk, 0, ADT(S.SPECF, 0, spec16(a)), SYM('key', M.VECU8))) for a in ('ed25519', 'entropy', '', 'x', '0123456789abcdef', '\u00e9t\u00e9')]
        for label, v in vals:
            def rt(tk=tk, ty=ty, v=v):
                k = method(P, tk, 'parse_string')
                I = fresh(P); nested_hook(I); J.install(I); st = St(TRUE, {})
                x = shown(I, ty, v, st)
                if k: r = I.call_key(k, [x], st, {})
                else:
                    jk = impl_fn(de[tk], 'deserialize')
                    r = I.call_key(jk, [J.des(TRUE, J.jstr(x))], st, {g: J.DT for g in P.bodies[jk]['generics'] if not g.startswith("'")})
                return both(cmpq.compare(I, S, r, OK(v), tries=200), cmpq.compare(I, S, st.pc, TRUE))
            out.append(Ob('%s: parses back what it prints%s' % (short, label), where(P, dk or tk), rule, guard(rt)))
    return out

def compare(I, got, want, cond, tries, hint):
    return cmpq.compare(I, S, got, want, cond, tries=tries, budget=60.0, hints={'text': hint})
