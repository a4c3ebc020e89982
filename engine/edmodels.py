"""The rest of the ed25519 and BIP-39 interfaces, over the opaque functions
pubkey, validpoint, edsign and edverify (so that a call of another entry point
of those libraries is compared by what it computes)."""
from models import *
import models as M
from itmodels import wrap
VKT, SKT, SGT = ('adt', 'VerifyingKey', ()), ('adt', 'SigningKey', ()), ('adt', 'EdSignature', ())
A32 = ('array', U8, (('cval', '32'),))
def ed(cx): return cx.key.startswith(('ed25519', 'signature'))
def part(s, a, n): return slice_(s, INT(a), INT(n))
def pub(seed): return as_seq(mk('call', 'pubkey', seed, A32))
def sk(s): return mk('call', 'sk', s, SKT)
def vk(s): return ITE(bcall('validpoint', s), OK(mk('call', 'vk', s, VKT)), ERR(mk('call', 'sigerr', ('unk',))))
def sized(s, n, f): return ITE(EQ(LEN(s), INT(n)), f(s), ERR(mk('call', 'sigerr', ('unk',)))) if LEN(s) is not INT(n) else f(s)
def ised(t, n): return t and t[0] == 'adt' and t[1].startswith('ed25519') and t[1].endswith('::' + n)
def build(cx, t, s, fallible):
    if ised(t, 'SigningKey'): return sized(s, 32, lambda s: OK(sk(s))) if fallible else sk(s)
    if ised(t, 'VerifyingKey'): return sized(s, 32, vk) if fallible else None
    if ised(t, 'Signature'): return sized(s, 64, lambda s: OK(mk('call', 'sig', s, SGT))) if fallible else mk('call', 'sig', s, SGT)

@wrap('from_keypair_bytes')
def _(cx):
    s = cx.seq(0)
    a, b = part(s, 0, 32), part(s, 32, 32)
    return ITE(EQ(pub(a), b), OK(sk(a)), ERR(mk('call', 'sigerr', ('unk',))))
@wrap('verifying_key')
def _(cx):
    if not ed(cx): return None
    return LS('vkof', lambda v: mk('call', 'vk', pub(v.a[1]), VKT) if v.op == 'call' and v.a[0] == 'sk' else UNK('key'), cx.v(0))
@wrap('try_sign')
def _(cx):
    if not ed(cx): return None
    return OK(mk('call', 'edsign', cx.v(0), cx.seq(1), SGT))
@wrap('from_slice')
def _(cx):
    return build(cx, ('adt', 'ed25519::Signature', ()), cx.seq(0), True) if ed(cx) else None
@wrap('as_bytes', 'to_vec', 'as_ref')
def _(cx):
    if not ed(cx): return None
    if cx.name == 'as_ref' and not cx.rty: return None
    def f(v):
        if v.op == 'call' and v.a[0] in ('sig', 'vk', 'sk'): return v.a[1]
        if v.op == 'call' and v.a[0] == 'edsign': return as_seq(mk('call', 'bytes_of', v, ('array', U8, (('cval', '64'),))))
        return UNK('key bytes')
    return LS('tobytes', f, cx.v(0))
@wrap('try_from')
def _(cx):
    t = M.strip(cx.targs[0]) if cx.targs else None
    return build(cx, t, cx.seq(0), True) if t and t[0] == 'adt' and t[1].startswith('ed25519') else None
@wrap('try_into')
def _(cx):
    t = M.strip(cx.targs[1]) if len(cx.targs) > 1 else None
    return build(cx, t, cx.seq(0), True) if t and t[0] == 'adt' and t[1].startswith('ed25519') else None
def sigbytes(cx, f, t):
    if ised(f, 'Signature') and t and (t[0] == 'array' or t[0] == 'adt' and t[1].endswith('::Vec')):
        return LS('tobytes', lambda v: v.a[1] if v.op == 'call' and v.a[0] == 'sig' else as_seq(mk('call', 'bytes_of', v, ('array', U8, (('cval', '64'),)))), cx.v(0))
@wrap('from')
def _(cx):
    t = M.strip(cx.targs[0]) if cx.targs else None
    f = M.strip(cx.targs[1]) if len(cx.targs) > 1 else None
    if ised(f, 'Signature'): return sigbytes(cx, f, t)
    if not (t and t[0] == 'adt' and t[1].startswith('ed25519')): return None
    if ised(t, 'VerifyingKey'):
        return LS('vkof', lambda v: mk('call', 'vk', pub(v.a[1]), VKT) if v.op == 'call' and v.a[0] == 'sk' else UNK('key'), cx.v(0))
    return build(cx, t, cx.seq(0), False)
@wrap('into')
def _(cx):
    t = M.strip(cx.targs[1]) if len(cx.targs) > 1 else None
    f = M.strip(cx.targs[0]) if cx.targs else None
    if ised(f, 'Signature'): return sigbytes(cx, f, t)
    return build(cx, t, cx.seq(0), False) if t and t[0] == 'adt' and t[1].startswith('ed25519') and not ised(t, 'VerifyingKey') else None
@wrap('is_weak')
def _(cx): return bcall('edweak', cx.v(0)) if ed(cx) else None

for _n in ('parse', 'parse_normalized', 'parse_in_normalized', 'parse_in_normalized_without_checksum_check', 'from_entropy'):
    def f(cx, old=H.get(_n)):
        if not cx.key.startswith('bip39'): return old(cx) if old else None
        return uncall(cx, 'bip39:' + cx.name, *[cx.v(i) for i in range(len(cx.args))])
    H[_n] = f
@wrap('from_str')
def _(cx):
    return uncall(cx, 'bip39:parse', cx.v(0)) if cx.key.startswith('bip39') else None
@wrap('parse')
def _(cx):
    t = M.strip(cx.targs[0]) if cx.targs else None
    if cx.key.startswith('core::str') and t and t[0] == 'adt' and t[1].startswith('bip39'): return uncall(cx, 'bip39:parse', cx.v(0))
@wrap('to_entropy_array')
def _(cx):
    if not cx.key.startswith('bip39'): return None
    e = uncall(cx, 'bip39:to_entropy', cx.v(0))
    n = LEN(e)
    return mk('tup', CONCAT(as_seq(e), SEQ(REP(sub(INT(33), n), INT(0)))), n)
