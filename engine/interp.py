"""Abstract interpreter over the type-checked program (THIR).

One pass over each function body; branches are merged (values become decision
diagrams), loops are summarised (induction variables, appended pieces, element-wise
stores, validation exits) and calls are interpreted modularly.  The result of a function
is a normal form (terms.py) that can be compared with a specification.
"""
from terms import *
import terms as T
import re

F64 = ('float', 'f64')
class Unsupported(Exception):
    pass

RNG = {}
OPS_BIN = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr',
           'Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'}
RANGE = 'core::ops::range::'

class St:
    __slots__ = ('pc', 'mem')
    def __init__(self, pc, mem): self.pc = pc; self.mem = mem
    def fork(self, c): return St(AND(self.pc, c), dict(self.mem))
    def set(self, o): self.pc = o.pc; self.mem = o.mem

class Ctl:
    """break/continue records of a loop or labelled block"""
    def __init__(self): self.breaks = []; self.conts = []

class Frame:
    def __init__(self, body, sub):
        self.body = body; self.sub = sub; self.env = {}; self.exits = []; self.targets = {}
        self.tcache = {}

class Closure(Payload):
    def __init__(self, key, frame): self.key = key; self.frame = frame

class PyFn(Payload):
    def __init__(self, f): self.f = f

def esc(n):
    """does the value contain references into memory?"""
    r = _esc.get(n)
    if r is None:
        r = n.op in ('mref', 'clo') or any(esc(k) for k in kids(n))
        _esc[n] = r
    return r
_esc = {}
MUTABLE = ('mref', 'clo', 'd_mut', 'd_mutchunks')
def reaches(n):
    """may a callee that gets the value write memory through it?"""
    r = _reaches.get(n)
    if r is None:
        r = n.op in MUTABLE or any(reaches(k) for k in kids(n))
        _reaches[n] = r
    return r
_reaches = {}

def unify(p, t, b, params):
    """match type pattern p (with impl generics `params`) against t"""
    if isinstance(p, tuple) and p and p[0] == 'param' and p[1] in params:
        if p[1] in b: return b[p[1]] == t
        b[p[1]] = t; return True
    if isinstance(p, tuple) and len(p) == 1 and isinstance(p[0], tuple) and p[0][0] == 'cparam' and p[0][1] in params:
        if p[0][1] in b: return b[p[0][1]] == t
        b[p[0][1]] = t; return True
    if isinstance(p, tuple) and isinstance(t, tuple):
        if len(p) != len(t): return False
        return all(unify(x, y, b, params) for x, y in zip(p, t))
    return p == t

def flat_path(path):
    out = []
    for s in path:
        if out and out[-1][0] == 'r' and s[0] in 'xr':
            o = out.pop()
            s = (s[0], add(o[1], s[1]), s[2])
        out.append(s)
    return tuple(out)

class Interp:
    UNROLL = 130
    MAXDEPTH = 60

    def __init__(self, P):
        self.P = P
        self.nc = 0
        self.cty = {}
        self.stack = []
        self.obl = []         # panic obligations (pc, kind, fn, span)
        self.allocs = []; self.rec_calls = []; self.vol = None; self.dec_types = set(); self.decok = False; self.dec_expand = None
        self.profile = None   # None: exact integers; 'release': wrapping operators; 'debug': overflow is a panic
        self.serde = False
        self.fails = False    # do reads/writes fail?
        self.fail_sites = []; self.finite = 0; self.zero = False; self.bufs = []; self.capacity = 1 << 60; self.read_loops = 0; self.phi_init = {}; self.unk_panics = []
        self.in_loop = 0
        self.texts = {}       # literal texts that stand for unknown ones
        self.generic = False  # loops: arbitrary iterations instead of closed forms
        self.inline = set()   # (trait, type) pairs to be inlined although local
        self.modular = True
        self.compose = False
        self.unk_calls = []
        self.ctls = []
        self.rd_fresh = 0
        self.visited = set()
        self.encerr_free = set()   # types whose encoder cannot fail
        self.hooks = {}
        self.steps = 0
        self.loop_ix = []
        self.depth_inl = {}
        self.local_default = {}
        for b in P.bodies.values():
            if b.get('intrait') and b.get('name'):
                self.local_default[(b['intrait'], b['name'])] = b['key']
        T.FIELD_TY[0] = self.field_ty
        T.FIELD_NAME[0] = self.field_name
        for k, a in P.adts.items():
            if a['kind'] == 'Struct': T.STRUCTS.add(k)
            T.ENUMS[k] = len(a['variants'])
        import models
        self.M = models
        models.install(self)

    # ------------------------------------------------------------ types
    def field_ty(self, t, vi, i):
        if t[0] == 'ref': t = t[2]
        if t[0] == 'tuple': return t[1][i] if i < len(t[1]) else None
        if t[0] != 'adt': return None
        a = self.P.adts.get(t[1])
        if not a or vi >= len(a['variants']): return None
        fs = a['variants'][vi][1]
        if i >= len(fs) or fs[i][1] is None: return None
        ft = self.P.ty(fs[i][1])
        return self.strip(self.tsub(ft, dict(zip(a['generics'], t[2]))))

    def field_name(self, t, vi, i):
        if not t: return None
        if t[0] == 'ref': t = t[2]
        if t[0] != 'adt': return None
        a = self.P.adts.get(t[1])
        if not a or vi >= len(a['variants']): return None
        v = a['variants'][vi]
        if i >= len(v[1]): return None
        return (v[0] + '.' if len(a['variants']) > 1 else '') + v[1][i][0]

    def strip(self, t):
        """references and boxes are transparent in the value domain"""
        while t and t[0] == 'ref' or (t and t[0] == 'adt' and t[1] == 'alloc::boxed::Box'):
            t = t[2] if t[0] == 'ref' else t[2][0]
        return t

    def tsub(self, t, m):
        if not m: return t
        if isinstance(t, tuple):
            if len(t) == 2 and t[0] == 'param': return m.get(t[1], t)
            if len(t) == 1 and isinstance(t[0], tuple) and len(t[0]) == 2 and t[0][0] == 'cparam': return m.get(t[0][1], t)
            return tuple(self.tsub(x, m) for x in t)
        return t

    def ty(self, fr, i):
        r = fr.tcache.get(i)
        if r is None:
            r = self.norm(self.tsub(self.P.ty(i), fr.sub))
            fr.tcache[i] = r
        return r

    def norm(self, t):
        """resolve projections where an impl is known"""
        if not isinstance(t, tuple): return t
        if t and t[0] == 'proj':
            a = tuple(self.norm(x) for x in t[3])
            r = self.project(t[1], t[2], a)
            if r is not None: return r
            return ('proj', t[1], t[2], a)
        return tuple(self.norm(x) if isinstance(x, tuple) else x for x in t)

    def project(self, trait, name, args):
        im = self.find_impl(trait, args)
        if im:
            im, b = im
            for n, k, x in im['items']:
                if n == name and x is not None:
                    return self.norm(self.tsub(self.P.ty(x), b))
        if name == 'Output' and trait.startswith('core::ops::') and args and args[0][0] == 'int': return args[0]
        if trait.endswith('::Deref') and args[0][0] == 'adt':
            h = args[0]
            if h[1] == 'alloc::vec::Vec': return ('slice', h[2][0])
            if h[1] == 'alloc::string::String': return ('str',)
        return None

    def find_impl(self, trait, args):
        for im in self.P.impl_by_trait.get(trait, ()):
            ia = im.get('_args')
            if ia is None:
                ia = tuple(self.P._arg(x) for x in im['args'])
                im['_args'] = ia
            b = {}
            if unify(ia, tuple(args[:len(ia)]), b, set(im['generics'])): return im, b
        return None

    # ------------------------------------------------------------ memory
    def alloc(self, st, v, ty=None):
        self.nc += 1
        c = self.nc
        st.mem[c] = v
        if ty is not None: self.cty[c] = ty
        return c

    def load(self, st, pl):
        c, path = pl
        if len(path) > 1: path = flat_path(path)
        v = st.mem.get(c, None)
        if v is None: return UNK('uninit')
        for s in path: v = self.step(v, s)
        return v

    def step(self, v, s):
        if s[0] == 'f': return FLD(v, s[1], s[2], self.strip(s[3]) if s[3] else s[3])
        if s[0] == 'x': return index(v, s[1], self.strip(s[2]) if s[2] else s[2])
        if s[0] == 'r': return slice_(v, s[1], s[2])
        raise Unsupported('step')

    def store(self, st, pl, v):
        c, path = pl
        if len(path) > 1: path = flat_path(path)
        old = st.mem.get(c, UNDEF)
        st.mem[c] = self.upd(old, path, v)

    def upd(self, old, path, v):
        if not path: return v
        s = path[0]
        if s[0] == 'f':
            if old.op == 'ite':
                return ITE(ATOM(old.a[0]), self.upd(old.a[1], path, v), self.upd(old.a[2], path, v))
            cur = self.step(old, s)
            nv = self.upd(cur, path[1:], v)
            if nv is cur: return old
            if old.op == 'adt':
                a = list(old.a); a[2 + s[2]] = nv
                return ADT(*a)
            if old.op == 'tup':
                a = list(old.a); a[s[2]] = nv
                return mk('tup', *a)
            t = node_ty(old)
            if t is None or old.op == 'phi':
                return UNK('field store into ' + old.op)
            t = self.strip(t)
            if t[0] == 'tuple':
                return mk('tup', *[nv if i == s[2] else FLD(old, 0, i, ft) for i, ft in enumerate(t[1])])
            if t[0] == 'adt' and t[1] in self.P.adts:
                fs = self.P.adts[t[1]]['variants'][s[1]][1]
                return ADT(t[1], s[1], *[nv if i == s[2] else FLD(old, s[1], i, None) for i in range(len(fs))])
            return UNK('field store')
        if s[0] == 'x':
            nv = self.upd(self.step(old, s), path[1:], v) if len(path) > 1 else v
            return store_at(old, s[1], INT(1), SEQ(ONE(nv)))
        if s[0] == 'r':
            nv = self.upd(self.step(old, s), path[1:], v) if len(path) > 1 else v
            return store_at(old, s[1], s[2], nv)
        raise Unsupported('upd')

    def place_of(self, v, st):
        """place designated by a mutable reference value"""
        if v.op == 'mref': return (v.a[0], v.a[1])
        return (self.alloc(st, v), ())

    def deref(self, st, v):
        """value behind a reference"""
        if v.op == 'mref': return self.load(st, (v.a[0], v.a[1]))
        if v.op == 'ite' and esc(v):
            return ITE(ATOM(v.a[0]), self.deref(st, v.a[1]), self.deref(st, v.a[2]))
        return v

    def rval(self, st, v):
        """fully dereferenced value (references nested in references)"""
        for _ in range(6):
            if v.op == 'mref': v = self.load(st, (v.a[0], v.a[1]))
            elif v.op == 'ite' and esc(v): v = self.deref(st, v)
            else: break
        return v

    def write_ref(self, st, r, v):
        if r.op == 'mref': self.store(st, (r.a[0], r.a[1]), v)
        elif r.op == 'ite':
            a = dict(st.mem); b = dict(st.mem)
            s1, s2 = St(st.pc, a), St(st.pc, b)
            self.write_ref(s1, r.a[1], v); self.write_ref(s2, r.a[2], v)
            st.mem = self.mmerge(ATOM(r.a[0]), a, b)
        # a reference to a temporary: the write is lost

    def mmerge(self, c, a, b):
        if a is b: return a
        out = dict(a)
        for k, v in b.items():
            w = out.get(k)
            if w is None: out[k] = v
            elif w is not v: out[k] = ITE(c, w, v)
        return out

    def merge(self, recs, base=TRUE):
        """recs: [(pc, val, mem)] with disjoint pcs -> (pc, val, mem)"""
        recs = [r for r in recs if r[0] is not FALSE]
        if not recs: return FALSE, UNDEF, {}
        if len(recs) == 1: return recs[0]
        tot = FALSE
        for r in recs: tot = OR(tot, r[0])
        pc, val, mem = recs[-1]
        for p, v, m in reversed(recs[:-1]):
            c = constrain(p, tot)
            if c.op not in ('ite', 'bool'): c = p
            val = val if v is val else ITE(c, v, val)
            mem = self.mmerge(c, m, mem)
        return tot, val, mem

    def diverge(self, st):
        st.pc = FALSE
        return UNDEF

    def panic(self, st, cond, kind, e=None, info=None):
        """record that the program panics when cond holds; continue without it"""
        c = constrain(cond, st.pc) if cond.op == 'ite' else cond
        if c is FALSE or c is UNDEF: return
        if c.op in ('unk', 'undef'):
            self.unk_panics.append((kind, e.get('sp') if e else None))
            return
        fn = self.stack[-1][0] if self.stack else ''
        self.obl.append((st.pc, c, kind, fn, e.get('sp') if e else None, info, tuple(x[0] for x in self.stack)))
        if kind in ('overflow',) and c is not TRUE and self.profile is None: return
        st.pc = AND(st.pc, NOT(cond)) if cond is not TRUE else FALSE

    # ------------------------------------------------------------ functions
    def call_key(self, key, args, st, sub, self_frame=None):
        """interpret the body `key` on argument values"""
        b = self.P.bodies.get(key)
        if b is None or b.get('missing'): raise Unsupported('no body ' + key)
        if len(self.stack) > self.MAXDEPTH: raise Unsupported('depth')
        fr = Frame(b, sub)
        if self_frame is not None:
            fr.env = dict(self_frame.env); fr.sub = self_frame.sub
        base_cell = self.nc
        self.visited.add(key)
        self.stack.append((key, fr))
        saved_ctls = self.ctls; self.ctls = []
        pc0 = st.pc
        try:
            for p, v in zip(b['params'] if self_frame is None else b['params'][1:] if len(b['params']) == len(args) + 1 else b['params'], args):
                c = self.alloc(st, v, self.ty(fr, p['ty']))
                if p.get('pat') is not None:
                    self.bind_pat(fr, p['pat'], (c, ()), st)
            v = self.ev(fr, b['root'], st)
            recs = list(fr.exits)
            if st.pc is not FALSE: recs.append((st.pc, v, st.mem))
            pc, val, mem = self.merge_exits(recs)
            st.pc = pc; st.mem = mem
        finally:
            self.stack.pop(); self.ctls = saved_ctls
        if pc is FALSE: return UNDEF
        if not esc(val):
            for k in [k for k in st.mem if k > base_cell]:
                del st.mem[k]
        return val

    def merge_exits(self, recs):
        recs = [r for r in recs if r[0] is not FALSE]
        if len(recs) > 1:
            # memory after an Err return is not observed: keep that of the other exits
            err = [r[1].op == 'adt' and r[1].a[0] == RES and r[1].a[1] == 1 for r in recs]
            if any(err) and not all(err):
                good = [r for r, e in zip(recs, err) if not e]
                bad = [r for r, e in zip(recs, err) if e]
                _, _, gm = self.merge(good)
                gm = dict(gm)
                recs = [(p, v, gm if True else m) for p, v, m in recs]
                for p, v, m in bad:
                    for k in m:
                        if k not in gm: gm[k] = m[k]
        return self.merge(recs)

    # ------------------------------------------------------------ patterns
    def bind_pat(self, fr, p, pl, st):
        """bind irrefutable/assumed pattern; returns condition"""
        k = p['k']
        if k == 'wild' or k == 'never': return TRUE
        if k == 'bind':
            c = TRUE
            if p.get('sub'): c = self.bind_pat(fr, p['sub'], pl, st)
            if p['by'] == 'refmut':
                v = mk('mref', pl[0], pl[1])
            else:
                v = self.load(st, pl)
            fr.env[p['var']] = self.alloc(st, v, self.ty(fr, p['ty']))
            return c
        if k in ('deref', 'derefp'):
            v = self.load(st, pl)
            if v.op == 'mref': return self.bind_pat(fr, p['sub'], (v.a[0], v.a[1]), st)
            if v.op == 'ite' and esc(v):
                return self.bind_pat(fr, p['sub'], (self.alloc(st, self.deref(st, v)), ()), st)
            return self.bind_pat(fr, p['sub'], pl, st)
        if k == 'leaf':
            c = TRUE
            for i, s in p['subs']:
                c = AND(c, self.bind_pat(fr, s, (pl[0], pl[1] + (('f', 0, i, self.strip(self.ty(fr, s['ty']))),)), st))
            return c
        if k == 'variant':
            v = self.load(st, pl)
            c = self.isv(v, p['adt'], p['vi'])
            if c is FALSE:
                for i, s in p['subs']: self.bind_undef(fr, s, st)
                return FALSE
            for i, s in p['subs']:
                c = AND(c, self.bind_pat(fr, s, (pl[0], pl[1] + (('f', p['vi'], i, self.strip(self.ty(fr, s['ty']))),)), st))
            return c
        if k == 'const':
            v = self.load(st, pl)
            return self.eq(v, self.const_val(p['v'], self.P.ty(p['vt'])))
        if k == 'range':
            v = self.load(st, pl)
            lo, hi = p['lo'], p['hi']
            t = self.P.ty(p['vt'])
            def sg(x):
                x = int(x); r = tyrange(t)
                if r and x > r[1]: x -= 1 << WIDTH[t[1]]
                return INT(x)
            c = TRUE
            if lo is not None: c = AND(c, GE(v, sg(lo)))
            if hi is not None: c = AND(c, LE(v, sg(hi)) if p['incl'] else LT(v, sg(hi)))
            return c
        if k == 'or':
            tot = FALSE; envs = []
            for s in p['pats']:
                e0 = dict(fr.env)
                c = self.bind_pat(fr, s, pl, st)
                new = {q: x for q, x in fr.env.items() if e0.get(q) != x}
                envs.append((AND(NOT(tot), c), new)); tot = OR(tot, c)
            names = set(); [names.update(n) for _, n in envs]
            for q in names:
                v = None
                for c, n in reversed(envs):
                    if q in n:
                        x = st.mem[n[q]]
                        v = x if v is None else ITE(c, x, v)
                fr.env[q] = self.alloc(st, v)
            return tot
        if k == 'slice':
            v = self.load(st, pl)
            L = LEN(v)
            npre, nsuf = len(p['pre']), len(p['suf'])
            c = EQ(L, INT(npre + nsuf)) if p['mid'] is None else GE(L, INT(npre + nsuf))
            if c is FALSE: return FALSE
            for j, s in enumerate(p['pre']):
                c = AND(c, self.bind_pat(fr, s, (pl[0], pl[1] + (('x', INT(j), self.ty(fr, s['ty'])),)), st))
            for j, s in enumerate(p['suf']):
                c = AND(c, self.bind_pat(fr, s, (pl[0], pl[1] + (('x', add(L, INT(j - nsuf)), self.ty(fr, s['ty'])),)), st))
            if p['mid'] is not None:
                c = AND(c, self.bind_pat(fr, p['mid'], (pl[0], pl[1] + (('r', INT(npre), add(L, INT(-npre - nsuf))),)), st))
            return c
        raise Unsupported('pattern ' + k)

    def bind_undef(self, fr, p, st):
        if p['k'] == 'bind': fr.env[p['var']] = self.alloc(st, UNDEF)
        for q in ('sub',):
            if p.get(q): self.bind_undef(fr, p[q], st)
        for i, s in p.get('subs', ()): self.bind_undef(fr, s, st)
        for s in p.get('pats', ()): self.bind_undef(fr, s, st)
        for s in p.get('pre', ()): self.bind_undef(fr, s, st)
        for s in p.get('suf', ()): self.bind_undef(fr, s, st)

    def isv(self, v, adt, vi):
        n = T.ENUMS.get(adt, 2)
        return ISV(v, vi, n)

    def eq(self, a, b):
        return EQ(a, b)

    # ------------------------------------------------------------ constants
    def const_val(self, v, t):
        while t[0] == 'ref': t = t[2]
        if v is None: return UNK('const')
        if 'str' in v: return as_seq(SEQ(LIT(tuple(v['str'].encode()))))
        if 's' in v:
            x = int(v['s'])
            if t[0] == 'bool': return BOOL(x)
            if t[0] in ('int', 'char'):
                r = tyrange(t)
                if r and x > r[1]: x -= 1 << WIDTH[t[1]]
                return INT(x)
            if t == ('float', 'f64'):
                import struct
                return FLT(struct.unpack('<d', struct.pack('<Q', x))[0])
            return UNK('const scalar %s' % (t,))
        b = v['b']
        if t[0] in ('array', 'slice'):
            return as_seq(SEQ(*[ONE(self.const_val(x, t[1])) for x in b]))
        if t[0] == 'str':
            return as_seq(SEQ(LIT(tuple(int(x['s']) for x in b))))
        if t[0] == 'tuple':
            return mk('tup', *[self.const_val(x, y) for x, y in zip(b, t[1])])
        if t[0] == 'adt':
            a = self.P.adts.get(t[1])
            if a and a['kind'] == 'Struct':
                fs = a['variants'][0][1]
                m = dict(zip(a['generics'], t[2]))
                if len(fs) == len(b):
                    return ADT(t[1], 0, *[self.const_val(x, self.tsub(self.P.ty(f[1]), m)) for x, f in zip(b, fs)])
            if a and a['kind'] == 'Enum' and b and b[0] and 's' in b[0]:
                vi = int(b[0]['s'])
                fs = a['variants'][vi][1]
                m = dict(zip(a['generics'], t[2]))
                if len(fs) == len(b) - 1:
                    return ADT(t[1], vi, *[self.const_val(x, self.tsub(self.P.ty(f[1]), m)) for x, f in zip(b[1:], fs)])
        return UNK('const %s' % (t,))

    def named_const(self, fr, x, st):
        c = x['callee']
        h = self.M.CONSTS.get(c['key']) or self.M.const_of(c['key'])
        if h is not None: return h(self, x, st)
        if self.texts and c['key'] in self.P.bodies and '::verif_probe::' in c['key']: return self.call_key(c['key'], [], st, {})
        if x.get('v'):
            r = self.const_val(x['v']['v'], self.P.ty(x['v']['ty']))
            if not has_unk(r): return r
        if c['key'] in self.P.consts:
            v = self.P.consts[c['key']]
            r = self.const_val(v['v'], self.P.ty(v['ty']))
            if not has_unk(r): return r
        key = c['key']
        args = tuple(self.norm(self.tsub(self.P._arg(a), fr.sub)) for a in c['args'])
        if c.get('trait'):
            im = self.find_impl(c['trait'], args)
            if im:
                for n, k, _ in im[0]['items']:
                    if n == c['name']: key = k
        if key in self.P.bodies:
            return self.call_key(key, [], st, dict(zip(c['params'], args)))
        h = self.M.ASSOC_CONST.get(c.get('name'))
        if h: 
            r = h(self, args, c)
            if r is not None: return r
        return UNK('const ' + c['key'])

    # ------------------------------------------------------------ expressions
    def ev(self, fr, i, st):
        if st.pc is FALSE: return UNDEF
        self.steps += 1
        x = fr.body['exprs'][i]
        return getattr(self, 'e_' + x['k'])(fr, x, st)

    def is_place(self, fr, i):
        x = fr.body['exprs'][i]
        k = x['k']
        if k in ('scope', 'use'): return self.is_place(fr, x['e']) if k == 'scope' else False
        if k in ('var', 'upvar', 'deref', 'index', 'field'): return True
        return False

    def pl(self, fr, i, st):
        """evaluate a place expression"""
        x = fr.body['exprs'][i]
        k = x['k']
        if k == 'scope': return self.pl(fr, x['e'], st)
        if k in ('var', 'upvar'):
            c = fr.env.get(x['v'])
            if c is None: return (self.alloc(st, UNK('unbound')), ())
            return (c, ())
        if k == 'field':
            c, p = self.pl(fr, x['e'], st)
            return (c, p + (('f', x['vi'], x['i'], self.strip(self.ty(fr, x['ty']))),))
        if k == 'deref':
            if self.is_place(fr, x['e']):
                q = self.pl(fr, x['e'], st)
                v = self.load(st, q)
            else:
                v = self.ev(fr, x['e'], st); q = None
            if v.op == 'mref': return (v.a[0], v.a[1])
            if v.op == 'ite' and esc(v):
                vs = leaves(v)
                if all(z.op in ('mref', 'undef') for z in vs):
                    # conditional reference: materialise (writes handled in e_assign)
                    return ('cond', v)
            if q is not None: return q
            return (self.alloc(st, v), ())
        if k == 'index':
            c, p = self.pl(fr, x['e'], st)
            v = self.load(st, (c, p))
            i_ = self.ev(fr, x['i'], st)
            L = LEN(self.deref(st, v))
            self.panic(st, GE(i_, L), 'index', x)
            return (c, p + (('x', i_, self.strip(self.ty(fr, x['ty']))),))
        v = self.ev(fr, i, st)
        return (self.alloc(st, v, self.ty(fr, x['ty'])), ())

    def pload(self, st, pl):
        if pl[0] == 'cond': return self.deref(st, pl[1])
        return self.load(st, pl)

    def e_scope(self, fr, x, st):
        s = x['s']
        br = fr.body.get('_brk')
        if br is None:
            br = set()
            for y in fr.body['exprs']:
                if y['k'] in ('break', 'continue'): br.add(y['s'])
            fr.body['_brk'] = br
        if s in br:
            y = fr.body['exprs'][x['e']]
            if y['k'] == 'loop': return self.e_loop(fr, y, st, s)
        return self.ev(fr, x['e'], st)

    def e_use(self, fr, x, st): return self.ev(fr, x['e'], st)
    def e_never(self, fr, x, st):
        self.ev(fr, x['e'], st)
        return self.diverge(st)
    def e_var(self, fr, x, st):
        c = fr.env.get(x['v'])
        if c is None: return UNK('unbound')
        return st.mem.get(c, UNK('uninit'))
    e_upvar = e_var
    def e_field(self, fr, x, st):
        return self.pload(st, self.plx(fr, x, st))
    def plx(self, fr, x, st):
        k = x['k']
        if k == 'field':
            q = self.pl(fr, x['e'], st)
            if q[0] == 'cond': q = (self.alloc(st, self.deref(st, q[1])), ())
            return (q[0], q[1] + (('f', x['vi'], x['i'], self.strip(self.ty(fr, x['ty']))),))
    def e_deref(self, fr, x, st):
        v = self.ev(fr, x['e'], st)
        return self.deref(st, v)
    def e_index(self, fr, x, st):
        if self.is_place(fr, x['e']):
            v = self.pload(st, self.pl(fr, x['e'], st))
        else: v = self.ev(fr, x['e'], st)
        v = self.rval(st, v)
        i = self.ev(fr, x['i'], st)
        self.panic(st, GE(i, LEN(v)), 'index', x)
        if st.pc is FALSE: return UNDEF
        return index(v, i, self.strip(self.ty(fr, x['ty'])))
    def e_borrow(self, fr, x, st):
        if not x['m']:
            if self.is_place(fr, x['e']): return self.pload(st, self.pl(fr, x['e'], st))
            return self.ev(fr, x['e'], st)
        q = self.pl(fr, x['e'], st)
        if q[0] == 'cond': return q[1]
        return mk('mref', q[0], q[1])
    def e_rawborrow(self, fr, x, st): return self.e_borrow(fr, x, st)
    def e_lit(self, fr, x, st):
        k, v = x['v']
        if k == 'int':
            return INT(int(v))
        if k == 'bool': return BOOL(v)
        if k == 'str': return self.texts[v] if v in self.texts else as_seq(SEQ(LIT(tuple(v.encode()))))
        if k == 'bytes': return as_seq(SEQ(LIT(tuple(v))))
        if k == 'char': return INT(v)
        if k == 'scalar': return INT(int(v))
        if k == 'float':
            t = self.ty(fr, x['ty'])
            if t == ('float', 'f64'): return FLT(float(v.replace('_', '').replace('f64', '')))
        return UNK('lit ' + k)
    def e_zst(self, fr, x, st):
        t = self.ty(fr, x['ty'])
        return mk('fnv', PyFnDef(self.P.T[x['ty']][1], fr)) if self.P.T[x['ty']][0] == 'fndef' else UNIT
    def e_const(self, fr, x, st): return self.named_const(fr, x, st)
    def e_constblock(self, fr, x, st):
        if x['key'] in self.P.bodies: return self.call_key(x['key'], [], st, fr.sub)
        return UNK('constblock')
    def e_cparam(self, fr, x, st):
        v = fr.sub.get(x['name'])
        if isinstance(v, tuple) and v and v[0][0] == 'cval': return INT(int(v[0][1]))
        return SYM('const ' + (dict(v).get('cparam', x['name']) if isinstance(v, tuple) and v else x['name']), ('int', 'usize'))
    def e_static(self, fr, x, st): return UNK('static ' + x['key'])
    def e_asm(self, fr, x, st): return UNK('asm')
    def e_tls(self, fr, x, st): return UNK('tls')
    def e_unsupported(self, fr, x, st): return UNK('unsupported ' + x['d'])
    def e_coerce(self, fr, x, st): return self.ev(fr, x['e'], st)
    def e_tuple(self, fr, x, st): return mk('tup', *[self.ev(fr, y, st) for y in x['a']])
    def e_array(self, fr, x, st):
        vs = [self.ev(fr, y, st) for y in x['a']]
        if st.pc is FALSE: return UNDEF
        return as_seq(SEQ(*[ONE(v) for v in vs]))
    def e_repeat(self, fr, x, st):
        v = self.ev(fr, x['e'], st)
        n = self.tsub((tuple(sorted(x['n'].items())),), fr.sub)[0]
        n = dict(n)
        if 'cval' in n: cnt = INT(int(n['cval']))
        elif 'cparam' in n: cnt = SYM('const ' + n['cparam'], ('int', 'usize'))
        else: return UNK('repeat')
        return as_seq(SEQ(REP(cnt, v)))
    def e_adt(self, fr, x, st):
        vals = {i: self.ev(fr, y, st) for i, y in x['fs']}
        if st.pc is FALSE: return UNDEF
        if x.get('base') is not None:
            if x['base'] == 'default': return UNK('default fields')
            b = self.ev(fr, x['base'], st)
            a = self.P.adts[x['adt']]
            t = self.ty(fr, x['ty'])
            for i in range(len(a['variants'][x['vi']][1])):
                if i not in vals: vals[i] = FLD(b, x['vi'], i, self.field_ty(t, x['vi'], i))
        return ADT(x['adt'], x['vi'], *[vals[i] for i in sorted(vals)])
    def e_closure(self, fr, x, st): return mk('clo', Closure(x['key'], fr))
    def e_cast(self, fr, x, st):
        v = self.ev(fr, x['e'], st)
        t = self.ty(fr, x['ty'])
        if st.pc is FALSE: return UNDEF
        v = self.rval(st, v)
        ft = self.strip(self.ty(fr, fr.body['exprs'][x['e']]['ty']))
        if ft == F64 and t[0] == 'int' or t == F64 and ft[0] == 'int':
            return v if v.op in ('unk', 'undef') else mk('call', 'flt:to:' + t[1] if ft == F64 else 'flt:of', v, t)
        if 'float' in (ft[0], t[0]) and ft != t: return UNK('float cast')
        if t[0] in ('int',): return CAST(t[1], self.enum_int(fr, x, v))
        if t[0] == 'char': return v
        return v
    def enum_int(self, fr, x, v):
        def f(v):
            if v.op == 'adt': return INT(v.a[1])
            return v
        return lift('enumint', f, v) if v.op in ('ite', 'adt') else v
    def e_un(self, fr, x, st):
        v = self.rval(st, self.ev(fr, x['e'], st))
        if st.pc is FALSE: return UNDEF
        t = self.ty(fr, x['ty'])
        if x['op'] == 'Not':
            if t[0] == 'bool': return NOT(v) if v.op in ('ite', 'bool') else v
            r = tyrange(t)
            if r and r[0] == 0: return sub(INT(r[1]), v)
            return sub(INT(-1), v)
        if t == F64: return v if v.op in ('unk', 'undef') else mk('call', 'flt:Sub', FLT(-0.0), v, F64)
        r = tyrange(t)
        if r: self.panic(st, EQ(v, INT(r[0])), 'overflow', x)
        return neg(v)
    def e_bin(self, fr, x, st):
        a = self.rval(st, self.ev(fr, x['l'], st))
        b = self.rval(st, self.ev(fr, x['r'], st))
        if st.pc is FALSE: return UNDEF
        lt = self.ty(fr, fr.body['exprs'][x['l']]['ty'])
        return self.binop(x['op'], a, b, self.strip(lt), st, x)

    def binop(self, op, a, b, t, st, x=None):
        if t == F64:
            for z in (a, b):
                if z.op in ('unk', 'undef'): return z
            if op in ('Add', 'Sub', 'Mul', 'Div', 'Rem'): return mk('call', 'flt:' + op, a, b, F64)
            r = ATOM(mk('bcall', 'flt:' + {'Ne': 'Eq'}.get(op, op), a, b))
            return NOT(r) if op == 'Ne' else r
        if op == 'Eq': return EQ(a, b)
        if op == 'Ne':
            r = EQ(a, b)
            return NOT(r) if r.op in ('ite', 'bool') else r
        if op in ('Lt', 'Le', 'Gt', 'Ge'):
            if t[0] == 'bool': return UNK('bool ord')
            if t[0] in ('int', 'char'):
                return {'Lt': LT, 'Le': LE, 'Gt': GT, 'Ge': GE}[op](a, b)
            return UNK('ord')
        if t[0] == 'bool':
            if op == 'BitAnd': return AND(a, b)
            if op == 'BitOr': return OR(a, b)
            if op == 'BitXor': return ITE(a, NOT(b), b)
        if t[0] != 'int': return UNK('binop %s on %s' % (op, t))
        lo, hi = RANGES[t[1]]
        def ovf(r):
            if r.op in ('unk', 'undef'): return r
            if self.profile == 'release': return CAST(t[1], r)
            self.panic(st, OR(LT(r, INT(lo)), GT(r, INT(hi))), 'overflow', x, (op, a, b))
            return r
        if op == 'Add': return ovf(add(a, b))
        if op == 'Sub': return ovf(sub(a, b))
        if op == 'Mul': return ovf(mul(a, b))
        if op in ('Div', 'Rem'):
            self.panic(st, EQ0(b), 'divzero', x, (op, a, b))
            if st.pc is FALSE: return UNDEF
            return div(a, b) if op == 'Div' else rem(a, b)
        if op == 'BitAnd': return band(a, b)
        if op == 'BitOr': return bor(a, b)
        if op == 'BitXor': return bxor(a, b)
        w = WIDTH[t[1]]
        if op in ('Shl', 'Shr'):
            bad = OR(LT(b, INT(0)), GE(b, INT(w)))
            if self.profile == 'release': b = band(CAST('u32', b), INT(w - 1)); bad = FALSE
            if bad is TRUE:
                self.panic(st, TRUE, 'shift', x); return UNDEF
            self.panic(st, bad, 'overflow', x, (op, a, b))
        if op == 'Shl':
            r = shl(a, b)
            # bits shifted out are dropped
            return CAST(t[1], r) if r.op != 'shl' else r
        if op == 'Shr': return shr(a, b)
        raise Unsupported(op)

    def e_logic(self, fr, x, st):
        l = self.ev(fr, x['l'], st)
        if st.pc is FALSE: return UNDEF
        l = self.cond(l, st)
        if x['op'] == 'And':
            if l is FALSE: return FALSE
            s = st.fork(l); rest = st.fork(NOT(l))
        else:
            if l is TRUE: return TRUE
            s = st.fork(NOT(l)); rest = st.fork(l)
        r = self.ev(fr, x['r'], s)
        r = self.cond(r, s) if s.pc is not FALSE else UNDEF
        p, _, m = self.merge([(s.pc, UNIT, s.mem), (rest.pc, UNIT, rest.mem)])
        st.pc = p; st.mem = m
        if s.pc is FALSE: return FALSE if x['op'] == 'And' else TRUE
        if r.op in ('unk', 'undef'): return r
        return AND(l, r) if x['op'] == 'And' else OR(l, r)

    def cond(self, c, st):
        """condition simplified under the path condition; unknown conditions become opaque atoms"""
        if c.op == 'mref': c = self.deref(st, c)
        if c.op == 'ite':
            r = constrain(c, st.pc)
            if any(z.op not in ('bool',) for z in leaves(r)):
                r = lift('condfix', lambda z: z if z.op == 'bool' else FALSE if z.op == 'undef' else ATOM(z), r)
            return r
        if c.op == 'bool': return c
        if c.op == 'undef': return FALSE
        return ATOM(c)     # opaque boolean term (also 'unk')

    def e_let(self, fr, x, st):
        q = self.pl(fr, x['e'], st)
        if st.pc is FALSE: return FALSE
        if q[0] == 'cond': q = (self.alloc(st, self.deref(st, q[1])), ())
        return self.cond(self.bind_pat(fr, x['p'], q, st), st)

    def branch(self, st, c, f, g):
        """evaluate f under c and g under !c, merge"""
        s1 = st.fork(c); s2 = st.fork(NOT(c))
        v1 = f(s1) if s1.pc is not FALSE else UNDEF
        v2 = g(s2) if s2.pc is not FALSE else UNDEF
        p, v, m = self.merge2(c, s1, v1, s2, v2)
        st.pc = p; st.mem = m
        return v

    def merge2(self, c, s1, v1, s2, v2):
        if s1.pc is FALSE and s2.pc is FALSE: return FALSE, UNDEF, {}
        if s1.pc is FALSE: return s2.pc, v2, s2.mem
        if s2.pc is FALSE: return s1.pc, v1, s1.mem
        return OR(s1.pc, s2.pc), ITE(c, v1, v2), self.mmerge(c, s1.mem, s2.mem)

    def e_if(self, fr, x, st):
        c = self.ev(fr, x['c'], st)
        if st.pc is FALSE: return UNDEF
        c = self.cond(c, st)
        if c is TRUE: return self.ev(fr, x['t'], st)
        if c is FALSE: return self.ev(fr, x['f'], st) if x['f'] is not None else UNIT
        return self.branch(st, c, lambda s: self.ev(fr, x['t'], s),
                           lambda s: self.ev(fr, x['f'], s) if x['f'] is not None else UNIT)

    def e_match(self, fr, x, st):
        q = self.pl(fr, x['e'], st)
        if st.pc is FALSE: return UNDEF
        if q[0] == 'cond': q = (self.alloc(st, self.deref(st, q[1])), ())
        recs = []
        rest = TRUE
        last = len(x['arms']) - 1
        for j, a in enumerate(x['arms']):
            if rest is FALSE: break
            s = st.fork(rest)
            if s.pc is FALSE: break
            c = self.bind_pat(fr, a['p'], q, s)
            c = self.cond(c, s)
            if c is FALSE: continue
            s.pc = AND(s.pc, c)
            if a.get('g') is not None:
                g = self.ev(fr, a['g'], s)
                g = self.cond(g, s) if s.pc is not FALSE else FALSE
                c = AND(c, g); s.pc = AND(s.pc, g)
                if s.pc is FALSE: continue
            elif j == last:
                c = TRUE; s.pc = AND(st.pc, rest)  # exhaustive
            here = AND(rest, c)
            v = self.ev(fr, a['b'], s)
            recs.append((here, s, v))
            rest = constrain(AND(rest, NOT(c)), st.pc)
            if rest is UNDEF: rest = FALSE
        live = [(c, s, v) for c, s, v in recs if s.pc is not FALSE]
        if not live: return self.diverge(st)
        c, s, v = live[-1]
        pc, mem = s.pc, s.mem
        for c, s, w in reversed(live[:-1]):
            v = v if w is v else ITE(c, w, v)
            mem = self.mmerge(c, s.mem, mem)
            pc = OR(s.pc, pc)
        st.pc = pc; st.mem = mem
        return v

    def e_block(self, fr, x, st):
        return self.block(fr, x['b'], st)

    def block(self, fr, b, st):
        if b['brk']:
            ctl = Ctl(); fr.targets[b['s']] = ctl
            v = self.block_in(fr, b, st)
            recs = [(p, w, m) for p, w, m in ctl.breaks]
            if st.pc is not FALSE: recs.append((st.pc, v, st.mem))
            p, v, m = self.merge(recs)
            st.pc = p; st.mem = m
            return v
        return self.block_in(fr, b, st)

    def block_in(self, fr, b, st):
        for s in b['stmts']:
            if st.pc is FALSE: return UNDEF
            if s['k'] == 'expr': self.ev(fr, s['e'], st); continue
            if s['e'] is None:
                self.declare(fr, s['p'], st); continue
            if s['p']['k'] == 'bind' and not s['p'].get('sub') and s['p']['by'] == 'move' and s.get('else') is None:
                v = self.ev(fr, s['e'], st)
                if st.pc is FALSE: return UNDEF
                fr.env[s['p']['var']] = self.alloc(st, v, self.ty(fr, s['p']['ty']))
                continue
            q = self.pl(fr, s['e'], st)
            if st.pc is FALSE: return UNDEF
            if q[0] == 'cond': q = (self.alloc(st, self.deref(st, q[1])), ())
            c = self.bind_pat(fr, s['p'], q, st)
            if s.get('else') is not None:
                c = self.cond(c, st)
                if c is not TRUE:
                    s2 = st.fork(NOT(c))
                    if s2.pc is not FALSE: self.block(fr, s['else'], s2)
                    st.pc = AND(st.pc, c)
        if st.pc is FALSE: return UNDEF
        if b['e'] is not None: return self.ev(fr, b['e'], st)
        return UNIT

    def declare(self, fr, p, st):
        if p['k'] == 'bind': fr.env[p['var']] = self.alloc(st, UNDEF, self.ty(fr, p['ty']))
        elif p['k'] == 'leaf':
            for i, s in p['subs']: self.declare(fr, s, st)

    def e_return(self, fr, x, st):
        v = self.ev(fr, x['e'], st) if x['e'] is not None else UNIT
        if st.pc is not FALSE: fr.exits.append((st.pc, v, st.mem))
        st.mem = {}
        return self.diverge(st)
    def e_break(self, fr, x, st):
        v = self.ev(fr, x['e'], st) if x['e'] is not None else UNIT
        if st.pc is not FALSE:
            fr.targets[x['s']].breaks.append((st.pc, v, st.mem))
        return self.diverge(st)
    def e_continue(self, fr, x, st):
        fr.targets[x['s']].conts.append((st.pc, UNIT, st.mem))
        return self.diverge(st)
    def e_assign(self, fr, x, st):
        v = self.ev(fr, x['r'], st)
        if st.pc is FALSE: return UNDEF
        q = self.pl(fr, x['l'], st)
        if st.pc is FALSE: return UNDEF
        if q[0] == 'cond': self.write_ref(st, q[1], v)
        else: self.store(st, q, v)
        return UNIT
    def e_assignop(self, fr, x, st):
        b = self.rval(st, self.ev(fr, x['r'], st))
        if st.pc is FALSE: return UNDEF
        q = self.pl(fr, x['l'], st)
        a = self.rval(st, self.pload(st, q))
        t = self.strip(self.ty(fr, fr.body['exprs'][x['l']]['ty']))
        op = x['op'].replace('Assign', '')
        v = self.binop(op, a, b, t, st, x)
        if st.pc is FALSE: return UNDEF
        if q[0] == 'cond': self.write_ref(st, q[1], v)
        else: self.store(st, q, v)
        return UNIT

    # ------------------------------------------------------------ calls
    def e_call(self, fr, x, st):
        c = x['callee']
        if c is None:
            f = self.ev(fr, x['f'], st)
            args = [self.ev(fr, y, st) for y in x['a']]
            if st.pc is FALSE: return UNDEF
            return self.apply(f, args, st, x)
        args = [self.ev(fr, y, st) for y in x['a']]
        if st.pc is FALSE: return UNDEF
        targs = tuple(self.norm(self.tsub(self.P._arg(a), fr.sub)) for a in c['args'])
        return self.call(c, targs, args, st, x, fr, self.ty(fr, x['ty']))

    def apply(self, f, args, st, x=None):
        """call a closure / function value"""
        f = self.rval(st, f)
        if f.op == 'clo':
            p = f.a[0]
            if isinstance(p, PyFn): return p.f(args, st)
            b = self.P.bodies[p.key]
            n = len(b['params'])
            # closure bodies take (self, args...)
            return self.call_key(p.key, args, st, p.frame.sub, p.frame)
        if f.op == 'fnv':
            d = f.a[0]
            return self.call(d.callee, d.targs(self), args, st, x, d.fr, None)
        if f.op == 'ite':
            a, b = f.a[1], f.a[2]
            return self.branch(st, ATOM(f.a[0]), lambda s: self.apply(a, args, s, x), lambda s: self.apply(b, args, s, x))
        self.havoc(args, st)
        return UNK('apply ' + f.op)

    def havoc(self, args, st):
        for a in args:
            for m in find_ops(a, MUTABLE) if reaches(a) else ():
                if m.op == 'clo':
                    if not isinstance(m.a[0], PyFn): self.havoc_captured(m.a[0].key, m.a[0].frame, st)
                else:
                    pl = (m.a[0], m.a[1])
                    if m in self.hv: continue
                    if m.a[0] in st.mem and reaches(st.mem[m.a[0]]):
                        v = self.load(st, pl)
                        self.hv.append(m)
                        try: self.havoc([v], st)
                        finally: self.hv.pop()
                    self.store(st, pl, UNK('havoc'))

    def havoc_captured(self, key, frame, st):
        """what a closure called an unknown number of times may have written"""
        b = self.P.bodies.get(key)
        if b is None: return
        w = b.get('_writes')
        if w is None:
            ex = b['exprs']; up = set(); wr = set(); sub = []
            def root(i):
                while True:
                    x = ex[i]
                    if x['k'] in ('scope', 'field', 'index', 'deref'): i = x['e']
                    else: return x['v'] if x['k'] in ('upvar', 'var') else None
            for x in ex:
                if x['k'] == 'upvar': up.add(x['v'])
                elif x['k'] in ('borrow', 'rawborrow') and x.get('m', True): wr.add(root(x['e']))
                elif x['k'] in ('assign', 'assignop'): wr.add(root(x['l']))
                elif x['k'] == 'closure': sub.append(x)
            w = b['_writes'] = (up, wr, [x['key'] for x in sub if x.get('key')])
        up, wr, sub = w
        for v in up:
            c = frame.env.get(v)
            if c is None or c not in st.mem: continue
            val = st.mem[c]
            if v in wr and val.op != 'mref': st.mem[c] = UNK('havoc')
            if reaches(val) and not self._in_havoc(key):
                self.hv.append(key)
                try: self.havoc([val], st)
                finally: self.hv.pop()
        for k in sub:
            if not self._in_havoc(k): 
                self.hv.append(k)
                try: self.havoc_captured(k, frame, st)
                finally: self.hv.pop()
    hv = []
    def _in_havoc(self, k): return k in self.hv

    def call(self, c, targs, args, st, x, fr, rty):
        key = c['key']
        if c.get('ctor'):
            a = self.P.adts.get(c['ctor'])
            vi = 0
            if a and len(a['variants']) > 1 or c.get('ctor_of') == 'Variant':
                vn = None
                parent = c['ctor']
                # ctor of a variant: key ends with variant name
                if parent in self.P.adts:
                    vn = c['name']; adt = parent
                else:
                    adt, vn = parent.rsplit('::', 1)
                for j, v in enumerate(self.P.adts[adt]['variants']):
                    if v[0] == vn: vi = j
                return ADT(adt, vi, *args)
            return ADT(c['ctor'], vi, *args)
        sub_ = dict(zip(c['params'], targs))
        if rty is None and x is not None: rty = self.ty(fr, x['ty']) if x['k'] == 'call' and x.get('callee') is c else ('unk',)
        k2 = key
        if c.get('trait'):
            tr = c['trait']
            h = self.hooks.get(tr + '::' + c['name'])
            if h is not None:
                r = h(self, c, targs, args, st, x, fr, rty)
                if r is not None: return r
            im = self.find_impl(tr, targs)
            if im:
                for n, k, _ in im[0]['items']:
                    if n == c['name']:
                        k2 = k
                        b = self.P.bodies.get(k)
                        # generics of the method = impl generics + own generics
                        own = targs[c['ntrait']:]
                        sub_ = dict(im[1])
                        if b:
                            ig = [g for g in b['generics'] if g not in im[0]['generics']]
                            sub_.update(zip(ig, own))
                        break
                else:
                    # provided method of the trait
                    k2 = key
            elif (tr, c['name']) in self.local_default:
                k2 = self.local_default[(tr, c['name'])]
        h = self.hooks.get(k2)
        if h is not None:
            r = h(self, c, targs, args, st, x, fr, rty)
            if r is not None: return r
        if k2 in self.P.bodies and not self.P.bodies[k2].get('missing') and k2 not in self.M.OPAQUE:
            return self.call_local(k2, args, st, sub_, rty, x)
        return self.M.call(self, c, targs, args, st, x, fr, rty)

    def call_local(self, key, args, st, sub_, rty, x):
        for k, f in self.stack:
            if k == key and f.sub == sub_:
                return self.recursive(key, args, st, sub_, rty, x)
        return self.call_key(key, args, st, sub_)

    def recursive(self, key, args, st, sub_, rty, x):
        self.rec_calls.append((key, st.pc, list(args), [self.M.follow(self, st, a) for a in args], x.get('sp') if x else None))
        r = self.M.recursive(self, key, args, st, sub_, rty, x)
        if r is not None: return r
        if not any(esc(a) for a in args):
            return wrapb(mk('call', 'fn:' + key, *args, self.strip(rty)), self.strip(rty))
        self.havoc(args, st)
        return UNK('recursive ' + key)

    # ------------------------------------------------------------ loops
    def e_loop(self, fr, x, st, label=None):
        ctl = Ctl()
        if label is not None: fr.targets[label] = ctl
        def body(s):
            self.ev(fr, x['b'], s)
        return self.loop(st, body, ctl, fr)

    def run_iter(self, st, body, ctl, fr):
        """one iteration from st; returns (state, breaks, exits)"""
        ctl.breaks = []; ctl.conts = []
        saved = fr.exits; fr.exits = []
        self.ctls.append(ctl); self.in_loop += 1
        try:
            body(st)
        finally:
            self.ctls.pop(); self.in_loop -= 1
            ex = fr.exits; fr.exits = saved
        recs = list(ctl.conts)
        if st.pc is not FALSE: recs.append((st.pc, UNIT, st.mem))
        p, _, m = self.merge(recs)
        return St(p, m), ctl.breaks, ex

    def loop_generic(self, st, body, ctl, fr):
        """up to two consecutive iterations from an arbitrary intermediate state, then the exit"""
        marks = lambda: (len(self.obl), len(self.fail_sites), len(self.allocs), len(self.unk_calls), len(self.rec_calls))
        def back(m): del self.obl[m[0]:]; del self.fail_sites[m[1]:]; del self.allocs[m[2]:]; del self.unk_calls[m[3]:]; del self.rec_calls[m[4]:]
        m0 = marks(); shapes = {}
        for _ in range(12):
            back(m0)
            s = st.fork(TRUE)
            for c, sh in shapes.items(): s.mem[c] = sh
            nxt, br, ex = self.run_iter(s, body, ctl, fr)
            new = []
            for m in [nxt.mem] + [b[2] for b in br]:
                for c, v in st.mem.items():
                    if c in shapes or c in new: continue
                    w = m.get(c)
                    if w is not None and w is not v: new.append(c)
            if not new: break
            for c in new:
                lf = []
                sh = self.mkphi(st.mem[c], self.cty.get(c), lf, c, False)
                for l in lf: self.phi_init[l[0]] = l[1]
                shapes[c] = UNK('loop') if sh is None else sh
        back(m0)
        cur = st.fork(TRUE)
        for c, sh in shapes.items(): cur.mem[c] = sh
        breaks = []
        for it in range(3):
            m = marks()
            nxt, br, ex = self.run_iter(cur.fork(TRUE), body, ctl, fr)
            breaks += br
            if it == 2:
                # only the exit of the loop is of interest now
                back(m); break
            fr.exits.extend(ex)
            cur = nxt
            if cur.pc is FALSE: break
        p, v, mm = self.merge(breaks)
        st.pc = p; st.mem = mm if p is not FALSE else st.mem
        return v

    def loop(self, st, body, ctl, fr):
        if self.generic is True or self.generic and self.generic(fr): return self.loop_generic(st, body, ctl, fr)
        start = st.fork(TRUE)
        breaks = []; exits = []
        cur = St(st.pc, dict(st.mem))
        nobl = len(self.obl); split = None
        if self.symbolic_iter(cur):
            n_unk = len(self.unk_calls)
            r = self.summarise(cur, body, ctl, fr)
            if r is not None and r[0] == 'split':
                split = r[1]; r = None
            if r is not None:
                st2, v, ex2 = r
                fr.exits.extend(ex2)
                st.pc = st2.pc; st.mem = st2.mem
                return v
            del self.obl[nobl:]; del self.unk_calls[n_unk:]
        for it in range(self.UNROLL + 1):
            ob1 = len(self.obl)
            s = cur.fork(TRUE)
            if it == 0 or it % 8 == 0:
                big = self.big_iter(cur)
            nxt, br, ex = self.run_iter(s, body, ctl, fr)
            bp = FALSE
            for p, _, _ in br: bp = OR(bp, p)
            # does the continuation test depend on symbolic data?
            e = constrain(bp, cur.pc) if bp.op == 'ite' else bp
            if (e.op == 'ite' or big or it == self.UNROLL) and nxt.pc is not FALSE:
                del self.obl[ob1:]
                r = self.summarise(cur, body, ctl, fr)
                if r is not None and r[0] == 'split':
                    if it == 0: split = r[1]
                    r = None
                if r is not None:
                    st2, v, ex2 = r
                    fr.exits.extend(exits + ex2)
                    recs = breaks + ([(st2.pc, v, st2.mem)] if st2.pc is not FALSE else [])
                    p, v, m = self.merge(recs)
                    st.pc = p; st.mem = m
                    return v
                break
            breaks += br; exits += ex
            cur = nxt
            if cur.pc is FALSE:
                fr.exits.extend(exits)
                p, v, m = self.merge(breaks)
                st.pc = p; st.mem = m
                return v
        # no summary: unroll with symbolic exits
        del self.obl[nobl:]
        cur = start
        breaks = []; exits = []
        big = self.big_iter(cur)
        if not big:
            for it in range(self.UNROLL + 1):
                nxt, br, ex = self.run_iter(cur.fork(TRUE), body, ctl, fr)
                breaks += br; exits += ex
                cur = nxt
                if cur.pc is FALSE:
                    fr.exits.extend(exits)
                    p, v, m = self.merge(breaks)
                    st.pc = p; st.mem = m
                    return v
                if has_unk(cur.pc): break
        del self.obl[nobl:]
        if split is None:
            # an iterator of two possible lengths: each by itself
            for c, v in start.mem.items():
                if v.op == 'it':
                    n = self.M.it_len(self, start, v.a[0])
                    if n.op == 'ite': n = constrain(n, start.pc)
                    if n.op == 'ite' and not has_unk(n): split = n.a[0]; break
        if split is not None:
            v = self.loop_split(st, split, body, ctl, fr)
            if v is not None: return v
        # give up: everything the loop may change becomes unknown
        s = start.fork(TRUE)
        changed = set()
        for _ in range(2):
            nxt, br, ex = self.run_iter(s.fork(TRUE), body, ctl, fr)
            for m in [nxt.mem] + [b[2] for b in br]:
                for c, v in start.mem.items():
                    if m.get(c, v) is not v: changed.add(c)
            for c in changed: s.mem[c] = UNK('loop')
        for c in changed: start.mem[c] = UNK('loop')
        u = ATOM(UNK('loop exit'))
        for p, v, m in ex:
            fr.exits.append((AND(start.pc, u), UNK('loop exit value'), dict(start.mem)))
            start.pc = AND(start.pc, NOT(u))
            break
        st.pc = start.pc; st.mem = start.mem
        return UNK('loop value')

    stuck = False

    def symbolic_iter(self, st):
        for c, v in st.mem.items():
            if v.op == 'it':
                n = self.M.it_len(self, st, v.a[0])
                if n.op == 'ite' and not has_unk(n): n = constrain(n, st.pc)
                if n.op == 'unk': continue
                if n.op not in ('int', 'ite') and v.a[1].op == 'int': return True
        return False

    def big_iter(self, st):
        """is some live iterator longer than we want to unroll?"""
        for c, v in st.mem.items():
            if v.op == 'it':
                n = self.M.it_len(self, st, v.a[0])
                if n.op == 'ite' and not has_unk(n): n = constrain(n, st.pc)
                r = sub(n, v.a[1])
                if r.op == 'int' and r.a[0] > self.UNROLL: return True
        return False

    def mkphi(self, v, ty, leafs, name, arr):
        """fresh value of the same shape as v; leafs collects (phi, init)"""
        self.nphi = getattr(self, 'nphi', 0) + 1
        if v.op == 'it':
            p = mk('phi', self.nphi, ('int', 'usize'))
            leafs.append((p, v.a[1], 'int'))
            return mk('it', v.a[0], p)
        if v.op == 'sink':
            p = mk('phi', self.nphi, ('unk',))
            leafs.append((p, v.a[2], 'seq'))
            return mk('sink', v.a[0], v.a[1], mk('seq', p))
        if v.op == 'rd':
            if v.a[0] != 'stream': return None
            p = mk('phi', self.nphi, ('int', 'usize'))
            leafs.append((p, v.a[2], 'int'))
            return mk('rd', 'stream', v.a[1], p)
        if v.op == 'adt' and len(v.a) > 2 or v.op == 'tup' and v.a:
            out = []
            off = 2 if v.op == 'adt' else 0
            for j, x in enumerate(v.a[off:]):
                ft = None
                if v.op == 'adt': 
                    ft = self.field_ty((ty if ty and ty[0] == 'adt' and ty[1] == v.a[0] else ('adt', v.a[0], ())), v.a[1], j)
                elif ty and ty[0] == 'tuple': ft = ty[1][j]
                y = self.mkphi(x, ft, leafs, name, arr)
                if y is None: return None
                out.append(y)
            return mk(v.op, *v.a[:off], *out)
        t = self.strip(ty) if ty else None
        if is_int(v) or (t and t[0] == 'int'):
            p = mk('phi', self.nphi, t if t and t[0] == 'int' else ('int', 'i128'))
            leafs.append((p, v, 'int'))
            return p
        if v.op == 'bool' or (t and t[0] == 'bool'):
            p = mk('phi', self.nphi, ('bool',))
            leafs.append((p, v, 'bool'))
            return ATOM(p)
        isseq = v.op == 'seq' or (t and (t[0] in ('array', 'slice', 'str') or t[0] == 'adt' and t[1] in ('alloc::vec::Vec', 'alloc::string::String')))
        if isseq:
            if (t and t[0] in ('array', 'slice')) or arr:
                p = mk('phi', self.nphi, ('plen', LEN(v)))
                leafs.append((p, v, 'arr'))
                return mk('seq', SUB(p, INT(0), LEN(v)))
            p = mk('phi', self.nphi, ('unk',))
            leafs.append((p, v, 'seq'))
            return mk('seq', p)
        p = mk('phi', self.nphi, t or ('unk',))
        leafs.append((p, v, 'val'))
        return p

    def leafvals(self, shape, v, out):
        """align the value v with the shape built by mkphi"""
        if shape.op == 'it':
            if v.op != 'it' or v.a[0] is not shape.a[0]: return False
            out.append(v.a[1]); return True
        if shape.op == 'sink':
            if v.op == 'sink' and v.a[:2] == shape.a[:2]: out.append(v.a[2]); return True
            return False
        if shape.op == 'rd':
            if v.op != 'rd' or v.a[:2] != shape.a[:2]: return False
            out.append(v.a[2]); return True
        if shape.op in ('adt', 'tup') and len(shape.a) > (2 if shape.op == 'adt' else 0):
            off = 2 if shape.op == 'adt' else 0
            if v.op != shape.op or v.a[:off] != shape.a[:off] or len(v.a) != len(shape.a):
                if shape.op == 'adt' and T.ENUMS.get(shape.a[0], 1) == 1:
                    return all(self.leafvals(s, FLD(v, 0, j, None), out) for j, s in enumerate(shape.a[off:]))
                return False
            return all(self.leafvals(s, w, out) for s, w in zip(shape.a[off:], v.a[off:]))
        out.append(v); return True

    splits = 0
    def loop_split(self, st, atom, body, ctl, fr):
        if self.splits > 3: return None
        s1, s2 = st.fork(ATOM(atom)), st.fork(NOT(ATOM(atom)))
        if s1.pc is FALSE or s2.pc is FALSE: return None
        self.splits += 1
        from cmpq import restrict
        for s_, val in ((s1, True), (s2, False)):
            for c, v in list(s_.mem.items()):
                if occurs(v, atom): s_.mem[c] = restrict(v, atom, val)
        try:
            v1 = self.loop(s1, body, ctl, fr)
            v2 = self.loop(s2, body, ctl, fr)
        finally: self.splits -= 1
        p, v, m = self.merge2(ATOM(atom), s1, v1, s2, v2)
        st.pc = p; st.mem = m
        return v

    def summarise(self, st, body, ctl, fr):
        for arr in (False, True):
            nobl = len(self.obl)
            r = self.summarise1(st, body, ctl, fr, arr)
            if r == 'arr' and not arr:
                del self.obl[nobl:]; continue
            if r is None or r == 'arr' or r[0] == 'split':
                del self.obl[nobl:]
                return None if r == 'arr' else r
            return r
        return None

    def summarise1(self, st, body, ctl, fr, arr):
        i = fresh_index('k')
        shapes = {}; leafs = {}; rds = {}
        nobl = len(self.obl)
        for _ in range(12):
            s = st.fork(TRUE)
            for c, sh in shapes.items(): s.mem[c] = sh
            for c, (head, tail, _n) in rds.items(): s.mem[c] = head
            del self.obl[nobl:]
            self.loop_ix.append(i)
            try:
                nxt, br, ex = self.run_iter(s, body, ctl, fr)
            finally:
                self.loop_ix.pop()
            new = []
            for m in [nxt.mem] + [b[2] for b in br]:
                for c, v in st.mem.items():
                    if c in shapes or c in rds or c in new: continue
                    w = m.get(c)
                    if w is not None and w is not v: new.append(c)
            if not new and nxt.pc is FALSE and not br:
                # nothing survives an iteration on the unresolved input: try its generic element
                new = [c for c, v in st.mem.items() if v.op == 'rd' and v.a[0] != 'stream' and c not in rds and self.M.rd_iter_head(self, v, i) is not None]
            if not new: break
            for c in new:
                v = st.mem[c]
                if v.op == 'rd' and v.a[0] != 'stream':
                    h = self.M.rd_iter_head(self, v, i)
                    if h is None: return None
                    rds[c] = h
                    continue
                lf = []
                sh = self.mkphi(v, self.cty.get(c), lf, c, arr)
                if sh is None: return None
                shapes[c] = sh; leafs[c] = lf
        else:
            return None
        if nxt.pc is FALSE and not br: return None
        # closed forms -------------------------------------------------
        subst_i = {}       # phi -> closed form in terms of i
        closed = {}        # cell -> list of functions (N -> value) per leaf
        after = {}
        for c, sh in shapes.items():
            if nxt.pc is FALSE: return None
            out = []
            w = nxt.mem.get(c)
            if w is None or not self.leafvals(sh, w, out) or len(out) != len(leafs[c]): return None
            after[c] = out
        for c, (head, tail, rn) in rds.items():
            w = nxt.mem.get(c)
            if w is not tail[0]:
                return None
        allphi = set()
        for lf in leafs.values():
            for p, _, _ in lf: allphi.add(p)
        def free(x): return not any(occurs(x, p) for p in allphi if p not in subst_i)
        solved = {}
        # invariant leaves and integer inductions
        prog = True
        while prog:
            prog = False
            for c in shapes:
                for j, (p, init, kind) in enumerate(leafs[c]):
                    if (c, j) in solved: continue
                    a = after[c][j]
                    if kind == 'int':
                        if a.op in ('unk', 'undef'): continue
                        d = sub(a, p)
                        d = subst(d, subst_i)
                        if free(d) and not occurs(d, i) and d.op != 'ite' :
                            cf = add(init, mul(i, d))
                            subst_i[p] = cf; solved[c, j] = ('int', init, d); prog = True
                    elif kind == 'bool':
                        if a is ATOM(p): subst_i[p] = init; solved[c, j] = ('inv', init); prog = True
                    elif kind == 'val':
                        if a is p: subst_i[p] = init; solved[c, j] = ('inv', init); prog = True
                    elif kind == 'seq':
                        if a.op == 'seq' and a.a and a.a[0] is p:
                            restv = mk('seq', *a.a[1:])
                            if not restv.a:
                                solved[c, j] = ('inv', init); prog = True
                                continue
                            L = LEN(restv)
                            L = subst(L, subst_i)
                            if free(L) and not occurs(L, i) and L.op != 'ite' and mk('len', p) not in subst_i:
                                subst_i[mk('len', p)] = add(LEN(init), mul(i, L)); prog = True
                            r2 = subst(restv, subst_i)
                            if not any(occurs(r2, q) for q in allphi if not (q in subst_i)):
                                solved[c, j] = ('app', init, r2); prog = True
                    elif kind == 'arr':
                        r = self.arr_summary(p, init, a, i, subst_i, allphi)
                        if r is not None: solved[c, j] = r; prog = True
        # unsolved leaves
        for c in shapes:
            for j, (p, init, kind) in enumerate(leafs[c]):
                if (c, j) not in solved:
                    if kind == 'seq' and not arr: return 'arr'
                    return self.mu_fail(c, j, leafs, after) 
        def S(x): return subst(x, subst_i)
        def reads_seqphi(x):
            # phis of sequences have no closed substitution: they must not be read
            return any(occurs(x, p) for lf in leafs.values() for p, _, k in lf if k in ('seq', 'arr') )
        # exits ----------------------------------------------------------
        B = FALSE
        for p, _, _ in br: B = OR(B, p)
        B = S(constrain(B, st.pc) if B.op == 'ite' else B)
        if B.op in ('unk', 'undef') or reads_seqphi(B): return None
        N, g = self.trip(B, i)
        if N is None:
            if g is not None and not any(occurs(g, p) for p in allphi): return ('split', g)
            return None
        short = FALSE       # the loop outruns the input element it consumes
        for c, (head, tail, rn) in rds.items():
            if N is not rn: short = OR(short, GT(N, rn))
            if N is not rn and len(rds) > 1: return None
        X = FALSE
        for p, v, m in ex: X = OR(X, p)
        X = S(constrain(X, st.pc) if X.op == 'ite' else X)
        if reads_seqphi(X): return None
        X = constrain(X, NOT(B)) if B is not TRUE else X
        if X is UNDEF: X = FALSE
        outst = St(st.pc, dict(st.mem))
        exrecs = []
        if g is not FALSE:
            k = FIRST(N, lambda z: subst(g, {i: z}))
            stop = k
        else:
            stop = N
        if X is not FALSE:
            # path conditions of the body hold only while the loop runs
            A = ANY(stop, i, X)
            for p, v, m in ex:
                v2 = v
                if not (v.op == 'adt' and v.a[0] == RES and v.a[1] == 1):
                    if len(ex) == 1 and not occurs(v, i) and not any(occurs(v, q) for q in allphi): v2 = v
                    else: v2 = UNK('early exit value')
                else:
                    if occurs(v, i) or any(occurs(v, q) for q in allphi): v2 = ERR(mk('call', 'err', ('unk',)))
                mm = dict(st.mem)
                for c in shapes: mm[c] = UNK('early exit')
                exrecs.append((AND(st.pc, A), v2, mm))
                break
            if len(ex) > 1:
                vs = {r[1] for r in ex}
                if len(vs) > 1:
                    iserr = all(r[1].op == 'adt' and r[1].a[0] == RES and r[1].a[1] == 1 for r in ex)
                    exrecs = [(AND(st.pc, A), ERR(mk('call', 'err', ('unk',))) if iserr else UNK('early exits'), exrecs[0][2])]
            outst.pc = AND(outst.pc, NOT(A))
        def final(n, bmem, at):
            """memory after n complete iterations (bmem: values at the break in terms of phis)"""
            fin = {}
            for c, sh in shapes.items():
                vals = [self.close(solved[c, j], leafs[c][j], n, i) for j in range(len(leafs[c]))]
                if any(v is None for v in vals): return None
                v = self.fill(sh, iter(vals))
                bv = bmem.get(c)
                if bv is not None and bv is not sh:
                    # the iteration that breaks changed the cell before breaking
                    out = []
                    if not self.leafvals(sh, bv, out) or len(out) != len(vals): return None
                    nv = []
                    for (p, init, kind), o, w in zip(leafs[c], out, vals):
                        o = subst(o, subst_i)
                        o = subst(o, {i: n})
                        if kind == 'seq':
                            if o.op == 'seq' and o.a and o.a[0] is p: o = CONCAT(w, mk('seq', *o.a[1:]))
                            elif occurs(o, p): return None
                        elif kind == 'arr':
                            if occurs(o, p): o = subst(o, {p: mk('arr', w)}) 
                        nv.append(o)
                    v = self.fill(sh, iter(nv))
                fin[c] = v
            for c, (head, tail, rn) in rds.items():
                bv = bmem.get(c)
                if bv is not head: return None
                fin[c] = tail[1] if N is rn and g is FALSE else ITE(EQ(n, rn), tail[1], tail[2](n))
            if short is not FALSE: fin = {c: ITE(short, UNK('reads past the element'), v) for c, v in fin.items()}
            return fin
        # value and memory at the end
        ends = [(p, v, m) for p, v, m in br]
        recs = []
        for p, v, m in ends:
            q = S(constrain(p, st.pc) if p.op == 'ite' else p)
            fin = final(stop, m, None)
            if fin is None: return None
            mm = dict(outst.mem); mm.update(fin)
            v2 = subst(S(v), {i: stop})
            if reads_seqphi(v2): v2 = UNK('loop value')
            cnd = subst(q, {i: stop}) if len(ends) > 1 else TRUE
            recs.append((cnd, v2, mm))
        if len(recs) > 1 and g is not FALSE:
            # which break fired: end of range or the search condition
            fixed = []
            for (p, v, m), (q, v2, mm) in zip(ends, recs):
                q0 = S(constrain(p, st.pc) if p.op == 'ite' else p)
                Nn, gg = self.trip(q0, i)
                hit = LT(stop, N)
                isend = Nn is not None and gg is FALSE
                fixed.append((NOT(hit) if isend else hit, v2, mm))
            if len(fixed) == 2: recs = fixed
            else: return None
        p, v, mm = recs[-1][0], recs[-1][1], recs[-1][2]
        for q, w, m in reversed(recs[:-1]):
            v = ITE(q, w, v); mm = self.mmerge(q, m, mm)
        outst.mem = mm
        # obligations recorded in the last evaluation: close them over the iterations
        ob = self.obl[nobl:]
        del self.obl[nobl:]
        for (pc, cnd, kind, fn, sp, info, stk) in ob:
            self.obl.append((S(pc), S(cnd), kind, fn, sp, info, stk))
        # facts about the loop index
        return outst, v, exrecs

    def mu_fail(self, c, j, leafs, after):
        return None

    def fill(self, sh, it):
        if sh.op == 'it': return mk('it', sh.a[0], next(it))
        if sh.op == 'rd': return mk('rd', sh.a[0], sh.a[1], next(it))
        if sh.op == 'sink': return mk('sink', sh.a[0], sh.a[1], next(it))
        if sh.op == 'adt' and len(sh.a) > 2: return ADT(sh.a[0], sh.a[1], *[self.fill(x, it) for x in sh.a[2:]])
        if sh.op == 'tup' and sh.a: return mk('tup', *[self.fill(x, it) for x in sh.a])
        return next(it)

    def close(self, sol, leaf, n, i):
        k = sol[0]
        if k == 'int': return add(sol[1], mul(n, sol[2]))
        if k == 'inv': return sol[1]
        if k == 'app': return CONCAT(sol[1], mk('seq', *SEQ_pieces(SEQ(MAP(n, i, sol[2])))))
        if k == 'blk':
            _, init, start, w, bodyv = sol
            L = LEN(init)
            total = scale(n, w) if not isinstance(w, Node) else mul(n, w)
            new = SEQ(MAP(n, i, bodyv))
            return store_at(init, start, total, new)
        return None

    def arr_summary(self, p, init, a, i, subst_i, allphi):
        """array p after one iteration: blocks of constant width written at start + i*w"""
        if a.op == 'seq' and len(a.a) == 1 and a.a[0].op == 'sub' and a.a[0].a[0] is p: return ('inv', init)
        if a.op != 'seq': return None
        a = subst(a, subst_i)
        if a.op != 'seq': return None
        ps = list(a.a)
        # leading and trailing untouched regions
        L = LEN(init)
        lo = INT(0)
        hi = L
        if ps and ps[0].op == 'sub' and ps[0].a[0] is p and ps[0].a[1] is INT(0):
            lo = ps[0].a[2]; ps.pop(0)
        if ps and ps[-1].op == 'sub' and ps[-1].a[0] is p and add(ps[-1].a[1], ps[-1].a[2]) is L:
            hi = ps[-1].a[1]; ps.pop()
        # lo = start + i*w
        w = sub(subst(lo, {i: add(i, INT(1))}), lo)
        start = subst(lo, {i: INT(0)})
        if w.op != 'int' or w.a[0] <= 0: return None
        W = w.a[0]
        # normalise the block to exactly [lo, lo+W)
        width = sub(hi, lo)
        if width.op != 'int' or width.a[0] > W: return None
        if width.a[0] < W:
            ps.append(SUB(p, hi, INT(W - width.a[0])))
        blk = SEQ(*ps)
        # reads of the old array must stay inside the block of the same iteration
        base = mk('arr', init)
        for n in find_ops(blk, ('sub', 'idx')):
            b = n.a[0]
            if b is p or (b.op == 'seq' and len(b.a) == 1 and b.a[0].op == 'sub' and b.a[0].a[0] is p):
                off = n.a[1]
                m = n.a[2] if n.op == 'sub' else INT(1)
                d = sub(off, lo)
                e = sub(add(d, m), INT(W))
                if rng(d)[0] < 0 or rng(e)[1] > 0:
                    return None
        blk = subst(blk, {p: base})
        if any(occurs(blk, q) for q in allphi if q not in subst_i): return None
        return ('blk', init, start, INT(W), as_seq(blk))

    def trip(self, B, i):
        """B(i): condition to leave in iteration i -> (N, g): N = first i leaving through the
        counting test, g = remaining search condition"""
        if B is TRUE: return INT(0), FALSE
        if B is FALSE: return None, None
        ats = []
        seen = set()
        def go(n):
            if n.op != 'ite' or n.id in seen: return
            seen.add(n.id)
            if n.a[0] not in ats: ats.append(n.a[0])
            go(n.a[1]); go(n.a[2])
        go(B)
        for a in ats:
            if a.op not in ('ge0', 'eq0'): continue
            c, t = lin_parts(a.a[0])
            co = dict(t).get(i)
            if not co: continue
            rest = mklin(c, {x: k for x, k in t if x is not i})
            if occurs(rest, i): continue
            hi = assume(B, a, True); lo = assume(B, a, False)
            for val, inside, outside in ((True, hi, lo), (False, lo, hi)):
                if inside is not TRUE: continue
                if occurs_cond_counter(outside, i): continue
                if a.op == 'ge0':
                    # true for co*i + rest >= 0
                    if val and co > 0: n = self.ceildiv(neg(rest), co)
                    elif not val and co < 0:
                        # leave when co*i + rest < 0, i.e. (-co)*i >= rest+1
                        n = self.ceildiv(add(rest, INT(1)), -co)
                    else: continue
                else:
                    if not val: continue
                    if co in (1, -1): n = scale(rest, -co)
                    else: continue
                if n is None: continue
                if rng(n)[0] < 0:
                    n = ITE(GE(n, INT(0)), n, INT(0))
                return n, outside
        for a in ats:
            # the bound is chosen by a condition that does not change: decide it first
            if not occurs(a, i) and not bvset(a): return None, a
        return None, None

    def ceildiv(self, x, k):
        if k == 1: return x
        return div(add(x, INT(k - 1)), INT(k))

def SEQ_pieces(s):
    s = as_seq(s)
    return s.a

def occurs_cond_counter(g, i):
    return False

class PyFnDef(Payload):
    def __init__(self, callee, fr):
        self.callee = callee; self.fr = fr
    def targs(self, I):
        return tuple(I.norm(I.tsub(I.P._arg(a), self.fr.sub)) for a in self.callee['args'])
