"""Entry points of the analysis used by the property checks."""
import os, sys, subprocess, time, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from ir import Program
from interp import Interp, St
from terms import *
import terms as T, models as M, spec as S, cmpq, teval

ENC2 = 'sia::encoding::v2::SiaEncodable'; DEC2 = 'sia::encoding::v2::SiaDecodable'
ENC1 = 'sia::encoding::v1::V1SiaEncodable'; DEC1 = 'sia::encoding::v1::V1SiaDecodable'

# ---- specialisation: an obligation that is undecided for all arguments may still be refuted for single ones.
# While SPECIAL is set the arguments of an obligation are the constants of one valuation instead of symbols.
SPECIAL = None
class Special:
    def __init__(self, P, seed):
        self.I = Interp(P); self.ev = teval.Ev(self.I, S, seed, []); self.ev.short = seed % 3 != 2
        self.memo = {}
    def get(self, name, ty):
        k = (name, repr(ty))
        if k not in self.memo: self.memo[k] = constant(self.I, self.ev, self.ev.gen(ty, ('sym', name)), ty, {}, name=name)
        return self.memo[k]

def SYM(name, ty):
    if SPECIAL is None: return T.SYM(name, ty)
    return SPECIAL.get(name, ty)

def constant(I, e, x, ty, syms, d=0, name='atom'):
    """the term of a single value"""
    if isinstance(x, bool): return BOOL(x)
    if isinstance(x, int): return INT(x)
    if isinstance(x, tuple) and x[0] == 'ut': return M.fromunix(INT(x[1]))
    if isinstance(x, tuple) and x[0] == 'ns': return M.nanos(INT(x[1]))
    if d < 8:
        if isinstance(x, list) and all(isinstance(y, int) and 0 <= y < 256 for y in x): return as_seq(SEQ(LIT(tuple(int(y) for y in x)))) if x else mk('seq')
        if isinstance(x, teval.LList) and len(x) <= 64:
            et = teval.elem_of(I.strip(ty))
            if et: return as_seq(SEQ(*[ONE(constant(I, e, y, et, syms, d + 1, name)) for y in x])) if len(x) else mk('seq')
        if isinstance(x, teval.Obj) and x.ty[0] == 'adt' and (I.P.adts.get(x.ty[1]) or {}).get('local'):
            vi = e.variant(x); vs = I.P.adts[x.ty[1]]['variants']
            return ADT(x.ty[1], vi, *[constant(I, e, e.field(x, vi, i, None), I.field_ty(x.ty, vi, i) or ('unk',), syms, d + 1, name) for i in range(len(vs[vi][1]))])
    s = T.SYM('%s%d' % (name, len(syms)), ty)
    syms[s] = x
    return s
class Missing(Exception): pass

def fresh(P):
    I = Interp(P)
    S.install(I)
    return I

def impls(P, trait):
    for im in P.impl_by_trait.get(trait, []):
        yield im, P._arg(im['args'][0])

def impl_fn(im, *names):
    for n, k, _ in im['items']:
        if n in names: return k
    return None

def nested_hook(I):
    """named types of the protocol tables are atomic pieces, everything else is interpreted"""
    def hook(I_, c, targs, args, st, x, fr, rty):
        ty = I_.strip(targs[0]) if targs else None
        if ty and ty[0] == 'adt' and not S.known(M.TR_ENC.get((c.get('trait') or '') + '::' + c['name']) or M.TR_DEC.get((c.get('trait') or '') + '::' + c['name']), ty) \
                and I_.find_impl(c['trait'], (ty,)): return None
        return M.call(I_, c, targs, args, st, x, fr, rty)
    for k in list(M.TR_ENC) + list(M.TR_DEC): I.hooks[k] = hook

def summarise_encoder(P, im, ty, kind, fails=False):
    """(result diagram, written sequence, self, interp) of one encode implementation"""
    I = fresh(P)
    I.fails = fails
    key = impl_fn(im, 'encode', 'encode_v1')
    ty = I.strip(ty)
    self = SYM('self', ty)
    nested_hook(I)
    st = St(TRUE, {})
    w = I.alloc(st, mk('sink', 'w', (), mk('seq')))
    r = I.call_key(key, [self, mk('mref', w, ())], st, {})
    s = I.load(st, (w, ()))
    return r, (s.a[2] if s.op == 'sink' else UNK('writer')), self, I

def compose(P, im_e, im_d, ty, kind):
    """decode(encode(self) ++ rest): (ok condition of encode, decode result, reader after, self, tail, I)"""
    r, w, self, I = summarise_encoder(P, im_e, ty, kind)
    okc = M.isok(r)
    w = constrain(cmpq.rename_fn(S, w), okc)
    tail = mk('tail', T.SYM('rest', ('int', 'usize')))
    I2 = fresh(P)
    I2.compose = True
    nested_hook(I2)
    st = St(okc, {})
    rd = I2.alloc(st, mk('rd', 'seq', 'r', CONCAT(w, mk('seq', tail))))
    key = impl_fn(im_d, 'decode', 'decode_v1')
    res = I2.call_key(key, [mk('mref', rd, ())], st, {})
    after = I2.load(st, (rd, ()))
    return okc, res, after, self, tail, I2
