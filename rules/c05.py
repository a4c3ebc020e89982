from rules.common import *
from terms import LT, NOT, EQ, GT
from rules.c07 import find_nodes, unres, SIDES
rule = 'every reservation is bounded by a constant or a narrow integer, and every recursion consumes a shared bounded budget'
explanation = 'Each decoder is interpreted on an arbitrary input. Every allocation whose size is fixed in advance (capacity, filled vectors, resizing, collecting an iterator of known length) must have a size whose range, under the path condition, is bounded by a constant. Types whose decoders call each other must not form a cycle; a recursive helper must, at every recursive call, pass an integer budget by mutable reference to the caller\'s own counter, strictly advanced since entry and bounded by a constant on that path.'
assumptions = ['vectors grow by pushing decoded elements, each of which consumes input']
floor = 60
LIMIT = 1 << 24

def interp(P, im, t):
    I = fresh(P); nested_hook(I); I.decok = True; I.generic = True
    st = St(TRUE, {})
    rd = I.alloc(st, mk('rd', 'stream', 'r', INT(0)))
    r = I.call_key(impl_fn(im, 'decode', 'decode_v1'), [mk('mref', rd, ())], st, {})
    return I, r

def check_allocs(I):
    n = 0
    for size, pc, sp, fn in I.allocs:
        n += 1
        if rng(size)[1] <= LIMIT: continue
        big = AND(pc, GT(size, INT(LIMIT)))
        if big is FALSE: continue
        if size.op in ('unk', 'undef') or unres(size): return ('undecided', 'reservation of unknown size at %s' % sp)
        return ('violated', 'reservation of %s elements at %s is not bounded by a constant' % (show(size)[:120], sp))
    return ('holds', '%d reservations' % n)

def run(P, im, t, kind):
    I, r = interp(P, im, t)
    return check_allocs(I)

def acyclic(P, all_):
    edges = {}
    def parts(t, out):
        if isinstance(t, tuple):
            if t and t[0] == 'adt' and t[1] in P.adts and P.adts[t[1]]['local']: out.add(t[1])
            for x in t: parts(x, out)
    for (v, im, t) in all_:
        I, r = interp(P, im, t)
        s = set(); parts(t, s)
        own = t[1] if t[0] == 'adt' else None
        for kind, ty, sp in I.dec_types:
            o = set(); parts(ty, o)
            for x in o: edges.setdefault(own, {})[x] = (ty, sp)
    for a in edges:
        if a is None: continue
        seen = set(); todo = [(a, ())]
        while todo:
            x, path = todo.pop()
            for y, (ty, sp) in edges.get(x, {}).items():
                if y == a: return ('violated', 'decoding %s decodes %s again without a budget (%s)' % (a.split('::')[-1], tyname(ty), sp))
                if y not in seen: seen.add(y); todo.append((y, path + (y,)))
    return ('holds', '%d types' % len(edges))

def advanced(pc, v0, v1):
    if AND(pc, LE(v1, v0)) is FALSE: return True
    d = sub(v1, v0)
    return rng(d)[0] >= 0 and d.op not in ('int', 'add') and T.subst(pc, {d: INT(0)}) is FALSE

def budgets(P, key):
    """the recursive helper on arbitrary arguments"""
    b = P.bodies[key]
    I = fresh(P); nested_hook(I); I.decok = True; I.generic = True
    st = St(TRUE, {})
    args = []; entry = {}
    for i, p in enumerate(b['params']):
        t = P.ty(p['ty'])
        mut = t[0] == 'ref' and t[1] in (True, 'mut', 1) 
        s = I.strip(t)
        if mut and s[0] == 'param':
            args.append(mk('mref', I.alloc(st, mk('rd', 'stream', 'r', INT(0))), ()))
        elif mut:
            v = SYM('a%d' % i, s); c = I.alloc(st, v, s); args.append(mk('mref', c, ())); entry[i] = (v, c)
        else:
            v = SYM('a%d' % i, s); args.append(v); entry[i] = (v, None)
    I.call_key(key, args, st, {g: ('param', g) for g in b['generics'] if g})
    calls = [c for c in I.rec_calls if c[0] == key]
    if not calls: return ('undecided', 'no recursive call met')
    for _, pc, a, vals, sp in calls:
        best = None
        for i, (v0, cell) in entry.items():
            pl, v1 = vals[i]
            if not (T.node_ty(v0) or ('',))[0] == 'int':
                if T.node_ty(v0) and T.node_ty(v0)[0] == 'adt': best = best or ('undecided', 'budget of type %s' % tyname(T.node_ty(v0)))
                continue
            shared = cell is not None and pl is not None and pl[0] == cell
            up = advanced(pc, v0, v1) and AND(pc, GT(v1, INT(LIMIT))) is FALSE
            down = advanced(pc, v1, v0)
            if (up or down) and shared: best = ('holds', ''); used = (i, v1, up); break
            if (up or down) and cell is not None: best = best if best and best[0] == 'undecided' else ('violated', 'recursive call at %s: the budget is a copy, so siblings do not share it' % sp)
            elif (up or down): best = best if best and best[0] == 'undecided' else ('violated', 'recursive call at %s: only the depth is limited, not the total' % sp)
            elif v1 is v0: best = best or ('violated', 'recursive call at %s: no budget has been consumed since entry' % sp)
            elif AND(pc, GT(v1, INT(LIMIT))) is not FALSE and v1.op != 'unk': best = best or ('violated', 'recursive call at %s: the budget is not bounded there' % sp)
            else: best = best or ('undecided', 'budget not resolved')
        if best is None: best = ('violated', 'recursive call at %s passes no budget' % sp)
        if best[0] != 'holds': return best
        i, v1, up = used
        vf = st.mem.get(entry[i][1])
        lost = AND(pc, LT(vf, v1) if up else GT(vf, v1))
        if lost is not FALSE:
            if AND(pc, GE(vf, v1) if up else LE(vf, v1)) is FALSE or AND(pc, EQ(vf, entry[i][0])) is pc: return ('violated', 'the budget consumed for the recursive call at %s is given back on return, so only the depth is limited' % sp)
            return ('undecided', 'budget at return not resolved: ' + show(vf)[:100])
    return ('holds', '%d recursive calls' % len(calls))

def obligations(P, tier):
    out = []; all_ = []; keys = {}
    I0 = fresh(P)
    for v, side, tr in SIDES:
        if side != 'decode': continue
        for im, t in impls(P, tr):
            k = impl_fn(im, 'decode', 'decode_v1')
            if k is None: continue
            t = I0.strip(t); all_.append((v, im, t))
            out.append(Ob('%s decode %s' % (v, tyname(t)), where(P, k), rule, lambda im=im, t=t, v=v: run(P, im, t, v)))
    out.append(Ob('no unbudgeted cycle of decoders', 'sia/src', rule, lambda: acyclic(P, all_)))
    # recursive local functions that take a reader
    edges = calls_of(P)
    for k, b in P.bodies.items():
        if 'root' not in b or b['kind'] == 'Closure': continue
        if not any(P.ty(p['ty'])[0] == 'ref' and I0.strip(P.ty(p['ty']))[0] == 'param' for p in b['params']): continue
        if k in reach(edges, k) and any(x in P.bodies and reads(P, x) for x in reach(edges, k) | {k}):
            out.append(Ob('budget of ' + b['pretty'], where(P, k), rule, lambda k=k: budgets(P, k)))
    return out

def calls_of(P):
    e = {}
    for k, b in P.bodies.items():
        s = e.setdefault(k, set())
        for x in b.get('exprs', ()):
            for c in (x.get('callee'), ):
                if isinstance(c, dict) and c['key'] in P.bodies: s.add(c['key'])
            if x.get('kind', x.get('k')) == 'closure' and x.get('key'): s.add(x['key'])
    return e
def reach(e, k):
    seen = set(); todo = list(e.get(k, ()))
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x); todo += e.get(x, ())
    return seen
def reads(P, k):
    for x in P.bodies[k].get('exprs', ()):
        c = x.get('callee')
        if isinstance(c, dict) and ((c.get('trait') or '').endswith(('SiaDecodable', '::Read'))): return True
    return False
