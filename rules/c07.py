from rules.common import *
from rules import finite
rule = 'wherever a read or write fails, the operation returns an error'
explanation = 'Every primitive read and write of every encoder and decoder may fail in the abstract interpretation: it returns an error exactly when a fresh atom of that site is true. The condition under which the whole operation returns success, and the condition of every panic, are diagrams over those atoms; for every site reached, success together with the failure of that site must be the constant false, and no panic may depend on it.'
assumptions = ['nested encoders and decoders report failures by their own obligation (induction over the type structure)']
floor = 150
SIDES = (('v2', 'encode', ENC2), ('v2', 'decode', DEC2), ('v1', 'encode', ENC1), ('v1', 'decode', DEC1))

def mentions(n, a): return a in find_nodes(n)
def find_nodes(n):
    seen = {}
    def go(x):
        if isinstance(x, tuple):
            for y in x: go(y)
        elif isinstance(x, Node) and x.id not in seen:
            seen[x.id] = x
            for y in x.a: go(y)
    go(n)
    return set(seen.values())

def run(P, im, ty, side, v):
    I = fresh(P); I.fails = True; I.generic = True; nested_hook(I)
    t = I.strip(ty)
    st = St(TRUE, {})
    if side == 'encode':
        w = I.alloc(st, mk('sink', 'w', (), mk('seq')))
        r = I.call_key(impl_fn(im, 'encode', 'encode_v1'), [SYM('self', t), mk('mref', w, ())], st, {})
    else:
        rd = I.alloc(st, mk('rd', 'stream', 'r', INT(0)))
        r = I.call_key(impl_fn(im, 'decode', 'decode_v1'), [mk('mref', rd, ())], st, {})
    ok = M.isok(r)
    res = check(I, ok, st)
    if res[0] == 'holds' and I.read_loops: res = ('undecided', 'partial reads in a loop')
    if res[0] == 'undecided':
        f = (finite.check if side == 'decode' else finite.check_encode)(P, im, ty, v)
        if f and f[0] == 'violated': return f
        if f: res = (res[0], res[1] + '; %d readers or writers of limited size are handled' % f[1])
    return res

def unres(n): return any(x.op in ('unk', 'junk', 'undef') for x in find_nodes(n))

def check(I, ok, st):
    if unres(ok): return ('undecided', 'result not resolved: ' + show(ok)[:160])
    und = None
    for a, pc, site, lix in I.fail_sites:
        what = '%s at %s' % (site[2], site[1])
        for opc, c, kind, fn, sp, info, stk in I.obl:
            if a in find_nodes(c): return ('violated', '%s: its failure panics (%s at %s)' % (what, kind, sp))
        if lix or bvset(pc):
            s = site_in_loop(ok, a)
        else:
            z = AND(AND(ok, pc), ATOM(a))
            if z is FALSE: s = 'ok'
            elif unres(z): s = 'unk'
            else: s = 'bad'
        if s == 'bad': return ('violated', '%s: when it fails the operation still reports success' % what)
        if s == 'unk': und = '%s: not resolved' % what
    if I.unk_calls: und = und or 'unknown calls'
    return ('undecided', und) if und else ('holds', '%d sites' % len(I.fail_sites))

def site_in_loop(ok, a):
    """some atom of ok quantifies over the loop and becomes true whenever the site fails; ok is false then"""
    for x in find_nodes(ok):
        if x.op == 'any' and any(y.op == 'fail' and y.a[0] == a.a[0] for y in find_nodes(x)):
            if AND(ok, ATOM(x)) is FALSE: return 'ok'
            return 'unk'
    return 'bad'

def obligations(P, tier):
    out = []
    I0 = fresh(P)
    for v, side, tr in SIDES:
        for im, t in impls(P, tr):
            k = impl_fn(im, 'encode', 'encode_v1', 'decode', 'decode_v1')
            if k is None: continue
            out.append(Ob('%s %s %s' % (v, side, tyname(I0.strip(t))), where(P, k), rule, lambda im=im, t=t, side=side, v=v: run(P, im, t, side, v)))
    return out
