from rules.preimages import *
from rules import texts as X
from rules.c21 import plain, either
import serde_model as J, strmodel
from strmodel import fn, truth
rule = 'an amount is integer and fraction scaled by its unit, exactly, or an error'
explanation = 'Currency::parse_string, and every entry point by which JSON text and numbers become a Currency (the Deserialize implementation and each visit_* method of its visitor), are summarised for an arbitrary text or number and compared with the grammar of amounts: digits and at most one decimal point, optional blanks, one of the ten units, at most as many fractional digits as the unit resolves, and a value below 2^128. Differences are witnessed by concrete texts or numbers.'
assumptions = ['str::parse::<u128> accepts exactly decimal digits (with an optional plus sign) below 2^128', 'str::trim, split and find behave as documented']
floor = 8
U128 = ('int', 'u128'); USIZE = ('int', 'usize')
MAXU = (1 << 128) - 1
UNITS = [('pS', 12), ('nS', 15), ('uS', 18), ('mS', 21), ('SC', 24), ('KS', 27), ('MS', 30), ('GS', 33), ('TS', 36)]
CURV = lambda n: ADT(S.CUR, 0, n)

def dec(s): return M.bcall('isdec:u128', s), mk('call', 'undec', s, U128)
def is_(s, txt): return EQ(s, J.text(txt))

def DIGIT(c): return NOT(OR(AND(GE(c, INT(48)), LE(c, INT(57))), EQ(c, INT(46))))
def amount(t):
    """the grammar: Result<Currency, ()>"""
    n = LEN(t)
    f = FIRST(n, lambda i: DIGIT(index(t, i, ('int', 'u8'))))
    i = ITE(LT(f, n), f, n)
    # the text before and from the first character that is neither digit nor point
    v = fn('trim', J.STR, as_seq(lift('c16:head', lambda z: M.substr(t, INT(0), z), i)))
    u = fn('trim', J.STR, as_seq(lift('c16:tail', lambda z: M.substr(t, z, sub(n, z)), i)))
    ok, x = dec(v)
    r = ERR(UNIT)
    for name, e in UNITS[::-1]: r = ITE(is_(u, name), scaled(v, e), r)
    return ITE(OR(EQ(LEN(u), INT(0)), is_(u, 'H')), either(ok, CURV(x)), r)
def scaled(v, e):
    cnt = fn('count', USIZE, v, J.text('.'))
    ps = fn('split', strmodel.VSTR, v, J.text('.'))
    a, b = index(ps, INT(0), J.STR), index(ps, INT(1), J.STR)
    a, b = as_seq(a), as_seq(b)
    oka, xa = dec(a); okb, xb = dec(b)
    whole = T.mul(xa, INT(10 ** e))
    frac = T.mul(xb, T.power(INT(10), sub(INT(e), M.CAST('u32', LEN(b)))))
    tot = add(whole, frac)
    fits = lambda x, then: ITE(LE(x, INT(MAXU)), then, ERR(INT(1)))
    one = fits(whole, OK(CURV(whole)))
    two = ITE(okb, ITE(GT(LEN(b), INT(e)), ERR(UNIT), fits(whole, fits(frac, fits(tot, OK(CURV(tot)))))), ERR(UNIT))
    return ITE(GE(cnt, INT(2)), ERR(UNIT), ITE(oka, ITE(EQ(cnt, INT(1)), two, one), ERR(UNIT)))

def digits(r, n): return bytes(48 + r(10) for _ in range(n))
def amounts(e, r):
    """amounts of the grammar, with values at the edges"""
    u, x = UNITS[r(len(UNITS))]
    k = r(8)
    top = MAXU // 10 ** x
    if k == 0: a = [top, top + 1, max(top - 1, 0), MAXU, MAXU + 1][r(5)]
    elif k == 1: a = r(2)
    elif k == 2: a = 10 ** r(40)
    else: a = int(digits(r, 1 + r(12)))
    a = [b'', b'0', b'00'][r(3) if r(4) == 0 else 0] + str(a).encode()
    k = r(6)
    if k == 0: s = a
    elif k == 1: s = a + b'.' + digits(r, [x, x + 1, max(x - 1, 1), x + 2][r(4)])
    elif k == 2:
        # the largest value, or one more
        z = [MAXU, MAXU + 1, MAXU - 1, MAXU + 10 ** r(x)][r(4)]
        s = str(z // 10 ** x).encode() + b'.' + str(z % 10 ** x).zfill(x).encode()
    elif k == 3:
        n = 1 + r(x)
        s = a + b'.' + (b'0' * (n - 1) + digits(r, 1))
    else: s = a + b'.' + digits(r, r(x + 3))
    if r(12) == 0: s = [b'', b'.', b'..', a + b'.', b'.' + a, a + b'.' + a + b'.' + a, a + b'..' + a, b'+' + a, b'-' + a, b' ' + a, a + b'_000'][r(11)]
    return s + [b'', b' ', b'  ', b'\t'][r(4)] + unit(e, r, u) + [b'', b'', b'', b' ', b'\n'][r(5)]
def unit(e, r, u):
    k = r(20)
    if k == 0: return b''
    if k == 1: return [b'H', b'h', b'HS', b'hS', b'H H'][r(5)]
    if k == 2: return u.swapcase().encode()
    if k == 3: return u.lower().encode()
    if k == 4: return [b'S', b'C', b'P', b'PS', b'ES', b'QS', b'fS', b'aS', b'dS', b'Sc', b'sc', b'k', b'SCS', b'SF', 'µS'.encode(), 'μS'.encode(), b'MSC', b'S C', b'Siacoins', b'siacoin'][r(20)]
    if k == 5: return [x for x, _ in UNITS][r(9)].encode()
    if k in (6, 7, 8) and e.lits:
        q = e.lits[r(len(e.lits))]
        if len(q) < 9: return q
    if k == 9: return u[0].swapcase().encode() + u[1:].encode()
    return u.encode()
def hastings(e, r):
    n = [MAXU, MAXU + 1, MAXU - 1, 10 ** r(40), int(digits(r, 1 + r(39)))][r(5)]
    return [b'', b'', b'', b'0', b'+', b' '][r(6)] + str(n).encode() + [b'', b'', b'H', b' H', b' ', b'.0', b'.', b'H ', b'.0 H', b'hastings', b'e3', b'h', b' h'][r(13)]
HINT = X.text(amounts, amounts, amounts, amounts, hastings)

def compare(I, got, want, cond, tries, hint=HINT):
    if cond is TRUE and not has_unk(got) and cmpq.equal(S, got, want, budget=40000): return ('equal', '')
    return cmpq.compare(I, S, got, want, cond, tries=tries, budget=100.0, hints={'text': hint})

def safe(I, tries):
    """arithmetic on the way stays in range"""
    seen = []
    for pc, cond, kind, fn_, sp, *_ in I.obl:
        c = AND(pc, cond)
        if c is FALSE or c in seen: continue
        seen.append(c)
        if len(seen) > 12: break
        yield compare(I, c, FALSE, TRUE, tries)

def obligations(P, tier):
    fresh(P)
    tries = 12000 if tier == 'thorough' else 5000
    out = []
    s = SYM('text', J.STR); t = as_seq(s)
    want = plain(amount(t))
    k = method(P, S.CUR, 'parse_string')
    def parse(cond=TRUE, n=tries):
        if k is None: raise NoAnchor('Currency::parse_string')
        I = fresh(P); nested_hook(I); st = St(cond, {})
        r = plain(I.call_key(k, [s], st, {}))
        return both(compare(I, r, want, cond, n), compare(I, st.pc, TRUE, cond, n), *safe(I, n))
    out.append(Ob('parse_string', where(P, k or S.CUR), rule, guard(parse), limit=300))
    im = next((im for im, ty in impls(P, J.DESK) if M.strip(ty) == S.A(S.CUR)), None)
    if im is None: return out + [missing('JSON', 'Deserialize for Currency')]
    jk = impl_fn(im, 'deserialize'); jb = P.bodies[jk]
    sub_ = {g: J.DT for g in jb['generics'] if not g.startswith("'")}
    def des(doc, cond=TRUE):
        I = fresh(P); nested_hook(I); J.install(I); st = St(cond, {})
        return I.call_key(jk, [J.des(TRUE, doc)], st, sub_), I, st
    def jtext():
        r, I, st = des(J.jstr(t))
        return both(compare(I, plain(r), want, TRUE, tries), compare(I, st.pc, TRUE, TRUE, tries), *safe(I, tries))
    out.append(Ob('JSON text', where(P, jk), rule, guard(jtext), limit=300))
    def jnum():
        n = SYM('n', ('int', 'i128'))
        dom = AND(GE(n, INT(-(1 << 63))), LE(n, INT((1 << 64) - 1)))
        r, I, st = des(J.jnum(n), dom)
        return both(cmpq.compare(I, S, plain(r), either(GE(n, INT(0)), CURV(n)), dom, tries=600), cmpq.compare(I, S, st.pc, dom, dom, tries=600))
    out.append(Ob('JSON number', where(P, jk), rule, guard(jnum)))
    # every entry of the visitor that takes a number
    for vim, vty in impls(P, J.VIS):
        if not vim['key'].startswith(jk) and S.CUR + ' as' not in vim['key'] and not value_is_currency(P, vim): continue
        for nm, vk, _ in [(i[0], i[1], 0) for i in vim['items']]:
            if nm[:6] != 'visit_' or nm[6:] not in RANGES_: continue
            def vis(nm=nm, vk=vk, vty=vty):
                w = nm[6:]
                x = SYM('n', ('int', w))
                I = fresh(P); nested_hook(I); J.install(I); st = St(TRUE, {})
                b = P.bodies[vk]
                r = I.call_key(vk, [ADT(M.strip(vty)[1], 0), x], st, {g: ('unk',) for g in b['generics'] if not g.startswith("'")})
                return both(cmpq.compare(I, S, plain(r), either(GE(x, INT(0)), CURV(x)), tries=600), cmpq.compare(I, S, st.pc, TRUE, tries=600))
            out.append(Ob('JSON number: ' + nm, where(P, vk), rule, guard(vis)))
    return out
RANGES_ = ('i8', 'i16', 'i32', 'i64', 'i128', 'u8', 'u16', 'u32', 'u64', 'u128')
def value_is_currency(P, im):
    for k, b in P.bodies.items():
        if b.get('implkey') == im['key'] and b.get('ret') is not None:
            if "('adt', '%s'" % S.CUR in repr(P.ty(b['ret'])): return True
    return False
