from rules.preimages import *
from rules import texts as X, c07, c16, c21
import serde_model as J, teval
rule = 'no input makes the operation reach a panic'
explanation = 'Every binary decoder (both encodings) is interpreted on an arbitrary byte stream whose reads may fail at every point, every string parser on an arbitrary text, and every hand-written JSON reader on documents of every kind (text, number, boolean, null, lists of arbitrary documents of many lengths, objects with their members present, absent and arbitrary). Each construct met that can panic (indexing, slicing, arithmetic, unwrap, expect, assertions, explicit panics, oversized reservations) contributes its reachability together with its panic condition; the conjunction must be the constant false. A satisfiable conjunction is exhibited by concrete values.'
assumptions = ['standard library and third-party functions panic exactly when documented', 'readers nested in another one are decided by their own obligation (induction over the type structure)',
               'derive-generated JSON readers do not panic by themselves', 'the parsers which the uint crate generates for Work are third-party code', 'exhaustion of memory and stack is the subject of C05 and C06']
floor = 120

def unphi(I, c):
    """the first iteration of the loops"""
    for _ in range(6):
        ph = find_ops(c, ('phi',))
        if not ph: return c
        m = {}
        for p in ph:
            if p not in I.phi_init: return None
            m[p] = I.phi_init[p]
        try: c = T.subst(c, m)
        except Exception: return None
    return None

BIG = T.LENMAX + 2
def panics(I, tries, hints, budget=60.0):
    seen = set(); n = 0; und = None
    todo = [(pc, c, kind, sp) for pc, c, kind, fn, sp, info, stk in I.obl]
    for size, pc, sp, fn in I.allocs:
        n += 1
        if size.op in ('unk', 'undef'): und = und or 'reservation of unknown size at %s' % sp; continue
        if rng(size)[1] > BIG: todo.append((pc, GT(size, INT(BIG)), 'capacity overflow', sp))
    for pc, c, kind, sp in todo:
        n += 1
        z = AND(pc, c)
        if z is FALSE or z.id in seen: continue
        seen.add(z.id)
        what = '%s at %s' % (kind, sp)
        if has_unk(z) and not find_ops(z, ('phi',)): und = und or what + ': not resolved'; continue
        f = unphi(I, z)
        if f is None: und = und or what + ': depends on earlier iterations'; continue
        if f is not z: und = und or what + ': depends on earlier iterations'
        if f is FALSE: continue
        if bvset(f) and not has_free_witness(f): und = und or what + ': inside a summarised loop'; continue
        if f is z and not has_unk(f) and cmpq.equal(S, f, FALSE, budget=20000): continue
        e = cmpq.compare(I, S, f, FALSE, TRUE, tries=tries, budget=budget, hints=hints)
        if e[0] == 'differ': return ('violated', '%s: %s' % (what, e[1]))
        if e[0] != 'equal' or f is not z: und = und or what + ': not decided'
    if I.unk_panics: und = und or '%s at %s: condition not resolved' % I.unk_panics[0]
    if I.unk_calls: und = und or 'unknown call %s' % (I.unk_calls[0],)
    return ('undecided', und) if und else ('holds', '%d sites' % n)
def has_free_witness(f): return False

def decode(P, im, tries):
    I = fresh(P); I.fails = True; I.generic = True; nested_hook(I)
    st = St(TRUE, {})
    rd = I.alloc(st, mk('rd', 'stream', 'r', INT(0)))
    k = impl_fn(im, 'decode', 'decode_v1')
    I.call_key(k, [mk('mref', rd, ())], st, {})
    r = panics(I, tries, {})
    if r[0] != 'undecided': return r
    e = teval.Ev(I, S, 0, list(SMALL) + teval.consts_of(*[c for _, c, *_ in I.obl][:200]))
    def inputs():
        for n in range(400):
            e.seed = n; e.memo = {}
            b = e.stream(['r'])
            yield bytes(b[j] for j in range([0, 1, 2, 7, 8, 9, 15, 16, 17, 24, 33, 40, 64, 100, 200][n % 15]))
        for n in range(0, 256):
            yield bytes([n]) + bytes(40)
            yield n.to_bytes(8, 'little') + bytes(range(1, 60))
        for j in range(64): yield (1 << j).to_bytes(8, 'little') * 8
        yield b'\xff' * 64
    def args(I, st, b): return [mk('mref', I.alloc(st, mk('rd', 'seq', 'r', lit(b))), ())]
    return single(P, k, inputs(), args, {}, r)

SMALL = range(0, 70)
def lit(b): return as_seq(SEQ(LIT(tuple(b)))) if len(b) else mk('seq')
def single(P, k, inputs, args, sub_, r, setup=None, budget=40):
    """the operation on single inputs (when it cannot be decided for all of them)"""
    import time
    t0 = time.time(); seen = set(); n = 0
    for b in inputs:
        if time.time() - t0 > budget: break
        b = bytes(b)
        if b in seen: continue
        seen.add(b)
        I = fresh(P); st = St(TRUE, {})
        if setup: setup(I)
        try: I.call_key(k, args(I, st, b), st, sub_)
        except Exception: continue
        n += 1
        for pc, c, kind, fn, sp, info, stk in I.obl:
            if pc is TRUE and c is TRUE: return ('violated', '%s at %s: input %s' % (kind, sp, b[:200].hex() + (' = %r' % b.decode('latin1') if all(32 <= x < 127 for x in b) else '')))
        for size, pc, sp, fn in I.allocs:
            if pc is TRUE and size.op == 'int' and size.a[0] > BIG: return ('violated', 'capacity overflow at %s: input %s' % (sp, b[:200].hex()))
    return ('undecided', '%s; no panic on %d single inputs' % (r[1], n))

PARSERS = ('parse_string', 'from_mnemonic', 'from_str', 'try_from', 'parse')
def textual(P, t):
    t = M.strip(t)
    while t[0] == 'ref': t = M.strip(t[2])
    return t[0] == 'str' or t == J.STRING
def parsers(P):
    """exported functions from one text to a result; (key, type)"""
    for k, b in P.bodies.items():
        if 'root' not in b or not b.get('exported') or b.get('kind') == 'Closure' or 'params' not in b or 'ret' not in b: continue
        ps = b['params']
        if len(ps) != 1 or not textual(P, P.ty(ps[0]['ty'])): continue
        r = P.ty(b['ret'])
        if r[0] != 'adt' or r[1] not in (RES, OPT): continue
        if b.get('implself') is None: continue
        t = P.ty(b['implself'])
        if b.get('impltrait') in (J.VIS, None) or True:
            if b.get('impltrait') and b['impltrait'] not in ('core::str::traits::FromStr', 'core::convert::TryFrom'): continue
        if t[0] == 'adt' and t[1] == S.WORK: continue
        yield k, t

def parse(P, k, tk, tries):
    I = fresh(P); nested_hook(I); st = St(TRUE, {})
    I.call_key(k, [SYM('text', J.STR)], st, {})
    r = panics(I, tries, {'text': hint(tk)})
    if r[0] != 'undecided': return r
    return single(P, k, texts(I, tk), lambda I, st, b: [lit(b)], {}, r)

def texts(I, tk, n=3000):
    lits = teval.lits_of(*[c for _, c, *_ in I.obl][:300])
    h = hint(tk)
    for j in range(n):
        e = teval.Ev(I, S, j, [])
        e.lits = lits
        v = (h if j % 4 else TEXTS)(e, teval.Rand(j, 'text'))
        if v is None: continue
        b = bytes(v)
        try: b.decode('utf-8')
        except UnicodeDecodeError: continue
        yield b
        if j < 40:
            for m in range(len(b) + 1): yield b[:m]

MNEMONIC = X.text(lambda e, r: b' '.join([b'abandon', b'about', b'zoo', b'x'][r(4)] for _ in range([12, 11, 13, 24, 0, 1][r(6)])))
WORKS = X.text(lambda e, r: str([0, 1, 2 ** 256 - 1, 2 ** 256, r(10 ** 9)][r(5)]).encode())
def hint(tk):
    if tk in c21.FORMS: return c21.FORMS[tk][1]
    if tk == S.CUR: return c16.HINT
    if tk == S.WORK: return WORKS
    if tk and tk.endswith('::Seed'): return MNEMONIC
    return TEXTS
def forms(e, r):
    k = r(4)
    if k == 0 and e.lits: return e.lits[r(len(e.lits))]
    if k == 1: return b'2023-01-02T03:04:05Z'
    if k == 2: return b'AAECAw=='
    return X.hexes(r, r(70))
TEXTS = X.text(forms)

KEYS = (('type', 'policy'), ('parent', 'type', 'resolution'), ('numLeaves', 'trees'), ('n', 'of'), ('x',))
LENGTHS = (0, 1, 2, 3, 10, 11, 12, 13, 31, 32, 33, 63, 64, 65, 66)
def doc(name): return mk('sym', name, J.VT)
def lengths(P, key):
    """list lengths that matter to a reader: those its code mentions, and their neighbours"""
    out = set(LENGTHS)
    for k, b in P.bodies.items():
        if k != key and not k.startswith(key + '::'): continue
        for x in b.get('exprs', ()):
            v = x.get('v')
            if x.get('k') == 'lit' and isinstance(v, int) and 1 < v < 200: out |= {v - 1, v, v + 1}
    return sorted(out)[:40]
def documents(P, key):
    yield 'text', J.jstr(as_seq(SYM('text', J.STR))), FALSE
    yield 'number', J.jnum(SYM('number', ('int', 'u64'))), FALSE
    yield 'negative number', J.jnum(SYM('negative', ('int', 'i64'))), FALSE
    yield 'boolean', J.jbool(ATOM(SYM('flag', ('bool',)))), FALSE
    yield 'null', J.jnull(), FALSE
    for n in lengths(P, key): yield 'list of %d' % n, J.jarr(as_seq(SEQ(*[ONE(doc('d%d' % i)) for i in range(n)]))), FALSE
    for ks in KEYS:
        for rev in (False, True):
            es = []
            for k in ks:
                d = doc('m_' + k)
                if k == 'type': d = J.jstr(as_seq(SYM('text', J.STR)))
                es.append((J.text(k), ITE(ATOM(SYM('has_' + k, ('bool',))), SOME(d), NONE)))
            yield 'object {%s}%s' % (', '.join(ks), ' reversed' if rev else ''), J.jobj(es), rev
    yield 'empty object', J.jobj([]), FALSE
    yield 'arbitrary members', J.jobj([(J.text(k), SOME(doc('m_' + k))) for k in ('type', 'policy', 'parent', 'resolution')]), FALSE

def readers(P):
    """hand-written JSON readers: (key, type key or None)"""
    for im, ty in impls(P, J.DESK):
        if im.get('derived'): continue
        k = impl_fn(im, 'deserialize')
        t = M.strip(ty)
        if k in P.bodies: yield k, t[1] if t[0] == 'adt' else None
    for k, b in P.bodies.items():
        if 'root' in b and b.get('name') == 'deserialize' and b.get('implself') is None and '::_' not in k: yield k, None

def own_loop(P, I, k):
    """loops of the reader itself: arbitrary iterations; those of its visitors run on lists of known length"""
    c = I.stack[-1][0]
    return (c == k or c.startswith(k + '::')) and P.bodies[c].get('impltrait') != J.VIS and not any(P.bodies[x].get('impltrait') == J.VIS for x, _ in I.stack if x in P.bodies)
def read(P, k, tk, tries):
    out = []; n = 0
    for label, d, rev in documents(P, k):
        I = fresh(P); nested_hook(I); J.install(I); st = St(TRUE, {})
        b = P.bodies[k]
        I.generic = lambda fr, I=I: own_loop(P, I, k)
        J.REV[0] = bool(rev) and rev is not FALSE
        try: I.call_key(k, [J.des(TRUE, d)], st, {g: J.DT for g in b['generics'] if not g.startswith("'")})
        finally: J.REV[0] = False
        v, t = panics(I, tries, {'text': hint(tk)}, budget=25.0)
        n += len(I.obl)
        if v == 'violated': return v, 'document: %s; %s' % (label, t)
        if v == 'undecided': out.append('%s: %s' % (label, t))
    if out:
        r = ('undecided', '; '.join(out)[:600])
        return single(P, k, texts(I, tk), lambda I, st, b: [J.des(TRUE, J.jstr(lit(b)))], {g: J.DT for g in P.bodies[k]['generics'] if not g.startswith("'")}, r, lambda I: (nested_hook(I), J.install(I)))
    return ('holds', '%d sites' % n)

def scalars(P, k, tries):
    """a visit_* method on an arbitrary scalar"""
    b = P.bodies[k]
    I = fresh(P); nested_hook(I); J.install(I); st = St(TRUE, {})
    args = [SYM('self', M.strip(P.ty(b['params'][0]['ty'])))]
    for p in b['params'][1:]: args.append(SYM('text' if textual(P, P.ty(p['ty'])) else 'v', M.strip(P.ty(p['ty']))))
    I.call_key(k, args, st, {g: J.DT for g in b['generics'] if not g.startswith("'")})
    t = P.ty(b['implself'])
    return panics(I, tries, {'text': c16.HINT if 'urrency' in k else TEXTS})

def obligations(P, tier):
    out = []
    fresh(P)
    tries = 4000 if tier == 'thorough' else 800
    I0 = fresh(P)
    for v, side, tr in c07.SIDES:
        if side != 'decode': continue
        for im, t in impls(P, tr):
            k = impl_fn(im, 'decode', 'decode_v1')
            if k is None: continue
            out.append(Ob('%s decode %s' % (v, tyname(I0.strip(t))), where(P, k), rule, lambda im=im: decode(P, im, tries)))
    for k, t in parsers(P):
        out.append(Ob('parse %s: %s' % (tyname(t), P.bodies[k]['name']), where(P, k), rule, lambda k=k, t=t: parse(P, k, t[1] if t[0] == 'adt' else None, tries)))
    for k, tk in readers(P):
        out.append(Ob('JSON %s' % (tk.replace('sia::', '') if tk else k.replace('sia::', '')), where(P, k), rule, lambda k=k, tk=tk: read(P, k, tk, tries), limit=240))
    for k, b in P.bodies.items():
        if b.get('impltrait') == J.VIS and 'root' in b and (b.get('name') or '').startswith('visit_') and b['name'] not in ('visit_map', 'visit_seq', 'visit_enum', 'visit_some', 'visit_newtype_struct') and '::_' not in k and len(b['params']) == 2:
            out.append(Ob('JSON %s' % P.bodies[k]['pretty'], where(P, k), rule, lambda k=k: scalars(P, k, tries)))
    return out
