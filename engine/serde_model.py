"""Abstract JSON data model: serde's serializers and deserializers on JSON terms.

A JSON document is a term of the algebraic type serde_json::Value (its numbers are plain
integers, its objects lists of (name, Option<value>) with the presence condition folded into
the option).  The value of an exported type inside a document is the atom js:<type>(v): how that
type is written is the subject of that type's own obligations; it is expanded only when it is
read as something else.
"""
import terms as T
from terms import *
import models as M
from models import strip, cases, follow, SOME, NONE, OK, ERR, isok, okv, issome, somev, LS

VK = 'serde_json::value::Value'; MK = 'serde_json::map::Map'
SERK, DESK = 'serde::ser::Serialize', 'serde::de::Deserialize'
VIS = 'serde::de::Visitor'
STR = ('str',); STRING = ('adt', 'alloc::string::String', ())
VT = ('adt', VK, ())
NULL, BOOL_, NUM, STRV, ARRV, OBJV = range(6)
def jnull(): return ADT(VK, NULL)
def jbool(b): return ADT(VK, BOOL_, b)
def jnum(n): return ADT(VK, NUM, n)
def jstr(s):
    if s.op == 'ite': return LS('jstr', jstr, s)
    if s.op == 'seq' and len(s.a) == 1 and s.a[0].op == 'alt':
        return lift('jstr', lambda z: z if z.op in ('unk', 'undef') else jstr(z.a[0]) if z.op == 'sl' else ADT(VK, STRV, SEQ(z)), s.a[0].a[0])
    return ADT(VK, STRV, s)
def jarr(s): return ADT(VK, ARRV, s)
def jtext(s): return jstr(mk('seq', LIT(tuple(s.encode()))) if s else mk('seq'))
def entry(k, opt): return mk('tup', k, opt)
def obj(es):
    """object from [(key seq, Option value)]"""
    es = [(k, o) for k, o in es if not (o.op == 'adt' and o.a[1] == 0)]
    return ADT(MK, 0, *[entry(k, o) for k, o in sorted(es, key=lambda e: keytext(e[0]) or '')])
def jobj(es): return ADT(VK, OBJV, obj(es))
def entries(m): return [(e.a[0], e.a[1]) for e in m.a[2:]]
def keytext(k):
    if k.op != 'seq' or not is_const_seq(k): return None
    return bytes(v for p in k.a for v in p.a[0]).decode('utf-8', 'replace')
def text(s): return mk('seq', LIT(tuple(s.encode()))) if s else mk('seq')
SERR = mk('call', 'serde-error', ('adt', 'serde-error', ()))
def err(): return ERR(SERR)
REV = [False]     # order in which the members of an object are met
def ser(hr): return ADT('ser!', 0, hr)
def des(hr, j): return ADT('des!', 0, hr, j)
DT = ('adt', 'des!', ()); ST_ = ('adt', 'ser!', ())

def local_impl(I, trait, ty):
    if ty[0] != 'adt': return None
    return I.find_impl(trait, (ty,))
def impl_item(im, name):
    for n, k, _ in im[0]['items']:
        if n == name: return k
    return None

def atomic(I, ty):
    """exported type with both directions: an atom of the documents it occurs in"""
    if ty[0] != 'adt': return False
    a = I.P.adts.get(ty[1])
    return bool(a and a.get('local') and a.get('exported') and local_impl(I, SERK, ty) and local_impl(I, DESK, ty))

def js(hr, ty, v):
    return mk('call', 'js:' + ty[1], hr, v, VT)

# ------------------------------------------------------------------ writing
def do_ser(cx, st, ty, v, hr):
    """Result<json> of serialising v : ty"""
    I = cx.I
    ty = strip(ty)
    for _ in range(8):
        if ty[0] == 'ref': ty = strip(ty[2])
        elif ty[0] == 'adt' and ty[1] in ('alloc::boxed::Box', 'alloc::rc::Rc', 'alloc::sync::Arc'): ty = strip(ty[2][0])
        else: break
    v = I.rval(st, v)
    if v.op in ('unk', 'undef'): return v
    k = ty[0]
    if k == 'bool' or ty == ('int', 'bool'): return OK(jbool(v))
    if k == 'int': return OK(jnum(v))
    if k == 'char': return UNK('char json')
    if k == 'str' or k == 'adt' and ty[1] in (STRING[1], 'alloc::borrow::Cow'): return OK(LS('jstr', lambda s: jstr(as_seq(s)), v))
    if k == 'tuple' and not ty[1]: return OK(jnull())
    if k == 'tuple':
        return all_ok([do_ser(cx, st, t, FLD(v, 0, i, strip(t)), hr) for i, t in enumerate(ty[1])], lambda xs: jarr(as_seq(SEQ(*[ONE(x) for x in xs]))))
    if k == 'adt' and ty[1] == OPT:
        c = issome(v)
        if c is TRUE: return do_ser(cx, st, ty[2][0], somev(v, strip(ty[2][0])), hr)
        if c is FALSE: return OK(jnull())
        return ITE(c, do_ser(cx, st, ty[2][0], somev(v, strip(ty[2][0])), hr), OK(jnull()))
    if k in ('array', 'slice') or k == 'adt' and ty[1] == 'alloc::vec::Vec':
        e = strip(ty[1] if k != 'adt' else ty[2][0])
        return map_seq(v, e, lambda x: do_ser(cx, st, e, x, hr), lambda s: jarr(s))
    if k == 'adt' and ty[1] == VK: return OK(v)
    if k == 'adt' and ty[1] == MK: return OK(ADT(VK, OBJV, v))
    if k == 'adt' and ty[1] == 'serde_json::number::Number': return OK(jnum(v))
    if atomic(I, ty):
        return LS('js', lambda x: ITE(ATOM(mk('bcall', 'jsok:' + ty[1], hr, x)) if fallible(I, ty) else TRUE, OK(js(hr, ty, x)), err()), v)
    im = local_impl(I, SERK, ty)
    if im:
        key = impl_item(im, 'serialize')
        sub_ = dict(im[1]); b = I.P.bodies.get(key)
        if b:
            for g in b['generics']:
                if g not in im[0]['generics']: sub_[g] = ST_
            return I.call_key(key, [v, ser(hr)], st, sub_)
    return OK(mk('call', 'js:' + T.tyname(ty) if hasattr(T, 'tyname') else 'js:' + repr(ty), hr, v, VT)) if not has_unk(v) else UNK('serialize')

def fallible(I, ty, seen=()):
    """can writing this type fail (durations and timestamps out of the format's range)?"""
    r = I.P.__dict__.setdefault('_fall', {})
    if ty in r: return r[ty]
    if ty in seen: return False
    out = False
    if ty[0] == 'adt':
        if ty[1] in ('time::duration::Duration', 'time::offset_date_time::OffsetDateTime'): out = True
        elif ty[1] in ('sia::types::spendpolicy::SpendPolicy',): out = False
        else:
            a = I.P.adts.get(ty[1])
            if a and a.get('local'):
                for vi, (vn, fs) in enumerate(a['variants']):
                    for i in range(len(fs)):
                        t = I.field_ty(ty, vi, i)
                        if t and fallible(I, strip(t), seen + (ty,)): out = True
            else: out = any(fallible(I, strip(x), seen + (ty,)) for x in ty[2] if isinstance(x, tuple) and x)
    elif ty[0] in ('array', 'slice', 'ref'): out = fallible(I, strip(ty[2] if ty[0] == 'ref' else ty[1]), seen + (ty,))
    elif ty[0] == 'tuple': out = any(fallible(I, strip(x), seen + (ty,)) for x in ty[1])
    if not seen: r[ty] = out
    return out

def all_ok(rs, f):
    bad = [r for r in rs if r.op in ('unk', 'undef')]
    if bad: return bad[0]
    ok = TRUE
    for r in rs: ok = AND(ok, isok(r))
    v = f([okv(r, VT) for r in rs])
    if ok is TRUE: return OK(v)
    return ITE(ok, OK(v), err())

def map_seq(v, e, f, wrap):
    """elementwise conversion of a sequence: Result<wrap(seq)>"""
    if v.op == 'ite': return LS('jmap', lambda x: map_seq(x, e, f, wrap), v)
    s = as_seq(v)
    if s.op != 'seq': return UNK('sequence ' + s.op)
    if any(p.op == 'alt' for p in s.a):
        # optional elements: each alternative by itself
        out = []; ok = TRUE
        for p in s.a:
            def one(z):
                if z.op == 'undef': return z
                r = map_seq(z.a[0] if z.op == 'sl' else SEQ(z), e, f, lambda q: q)
                return r
            r = lift('jalt%d' % M.fresh_n(), one, p.a[0]) if p.op == 'alt' else one(p)
            if r.op == 'unk' or has_unk(r): return UNK('elements')
            ok = AND(ok, isok(r)); out.append(okv(r, None))
        q = CONCAT(*[as_seq(x) for x in out])
        return OK(wrap(q)) if ok is TRUE else ITE(ok, OK(wrap(q)), err())
    n = LEN(s)
    if any(p.op == 'map' and LEN(p.a[1]).op != 'int' for p in s.a):
        # repeated groups of varying length
        out = []; ok = TRUE
        for p in s.a:
            if p.op != 'map':
                r = map_seq(as_seq(SEQ(p)), e, f, lambda q: q)
                if r.op == 'unk' or has_unk(r): return UNK('elements')
                ok = AND(ok, isok(r)); out.append(as_seq(okv(r, None))); continue
            i = fresh_index()
            r = map_seq(subst(p.a[1], {mk('bv', p.a[2]): i}), e, f, lambda q: q)
            if r.op == 'unk' or has_unk(r): return UNK('elements')
            g = isok(r)
            if g is not TRUE: ok = AND(ok, NOT(ANY(p.a[0], i, NOT(g))))
            out.append(as_seq(SEQ(MAP(p.a[0], i, as_seq(okv(r, None))))))
        q = CONCAT(*out)
        return OK(wrap(q)) if ok is TRUE else ITE(ok, OK(wrap(q)), err())
    if n.op == 'int' and n.a[0] <= 16:
        return all_ok([f(index(s, INT(i), e)) for i in range(n.a[0])], lambda xs: wrap(as_seq(SEQ(*[ONE(x) for x in xs]))))
    if len(s.a) == 1 and s.a[0].op == 'map' and LEN(s.a[0].a[1]) is INT(1):
        i = fresh_index(); x = index(subst(s.a[0].a[1], {mk('bv', s.a[0].a[2]): i}), INT(0), e)
    else:
        i = fresh_index(); x = index(s, i, e)
    r = f(x)
    if r.op in ('unk', 'undef'): return r
    ok = isok(r)
    y = okv(r, None)
    out = as_seq(SEQ(MAP(n, i, SEQ(ONE(y)))))
    if ok is TRUE: return OK(wrap(out))
    bad = ANY(n, i, NOT(ok))
    return ITE(bad, err(), OK(wrap(out)))

# ------------------------------------------------------------------ reading
def do_des(cx, st, ty, j, hr):
    """Result<value of ty> of deserialising the document j"""
    I = cx.I
    ty = strip(ty)
    j = I.rval(st, j)
    if j.op in ('unk', 'undef'): return j
    if j.op == 'ite':
        a, b = j.a[1], j.a[2]
        return I.branch(st, ATOM(j.a[0]), lambda s: do_des(cx, s, ty, a, hr), lambda s: do_des(cx, s, ty, b, hr))
    k = ty[0]
    if k == 'adt' and ty[1] == 'alloc::boxed::Box': return do_des(cx, st, ty[2][0], j, hr)
    if k == 'adt' and ty[1] == 'core::marker::PhantomData': return do_des(cx, st, ty[2][0], j, hr)
    if k == 'adt' and ty[1] == 'serde::de::ignored_any::IgnoredAny': return OK(ADT(ty[1], 0))
    if k == 'adt' and ty[1] == VK: return OK(j)
    if j.op == 'call' and j.a[0].startswith('js:'):
        if k == 'adt' and j.a[0] == 'js:' + ty[1] and j.a[1] is hr: return OK(j.a[2])
        return do_des(cx, st, ty, expand(cx, st, j), hr)
    if arbitrary(j) and k == 'adt' and ty[1] == OPT: return ITE(M.bcall('docnull', j), OK(NONE), mapok(any_des(ty[2][0], j), SOME))
    if arbitrary(j) and not (k == 'adt' and local_impl(I, DESK, ty) and not I.P.adts.get(ty[1], {}).get('exported')): return any_des(ty, j)
    if k == 'adt':
        im = local_impl(I, DESK, ty)
        if im:
            key = impl_item(im, 'deserialize'); b = I.P.bodies.get(key)
            if b:
                sub_ = dict(im[1])
                for g in b['generics']:
                    if g not in im[0]['generics']: sub_[g] = DT
                if any(kk == key and f.sub == sub_ for kk, f in I.stack): return UNK('recursive document')
                return I.call_key(key, [des(hr, j)], st, sub_)
    if j.op != 'adt' or j.a[0] != VK: return UNK('document ' + j.op)
    vi = j.a[1]; x = j.a[2] if len(j.a) > 2 else None
    if k == 'adt' and ty[1] == OPT:
        if vi == NULL: return OK(NONE)
        r = do_des(cx, st, ty[2][0], j, hr)
        return r if r.op in ('unk', 'undef') else mapok(r, SOME)
    if k == 'bool' or ty == ('int', 'bool'): return OK(x) if vi == BOOL_ else err()
    if k == 'int':
        if vi != NUM: return err()
        lo, hi = RANGES[ty[1]]
        if x.op == 'unk': return x
        c = AND(GE(x, INT(lo)), LE(x, INT(hi)))
        return ITE(c, OK(x), err())
    if k == 'str' or ty == STRING or k == 'adt' and ty[1] in ('alloc::string::String', 'alloc::borrow::Cow'):
        return OK(x) if vi == STRV else err()
    if k == 'tuple' and not ty[1]: return OK(UNIT) if vi == NULL else err()
    if k == 'tuple' or k == 'array':
        if vi != ARRV: return err()
        s = as_seq(x)
        ts = ty[1] if k == 'tuple' else None
        n = len(ts) if ts is not None else alen(ty)
        if n is None: return UNK('array length')
        ok = EQ(LEN(s), INT(n))
        if ok is FALSE: return err()
        if k == 'tuple':
            r = all_ok([do_des(cx, st, t, index(s, INT(i), VT), hr) for i, t in enumerate(ts)], lambda xs: mk('tup', *xs))
        else:
            e = strip(ty[1])
            r = map_seq(s, VT, lambda y: do_des(cx, st, e, y, hr), lambda q: q)
        return r if ok is TRUE or r.op in ('unk', 'undef') else ITE(ok, r, err())
    if k == 'adt' and ty[1] == 'alloc::vec::Vec':
        if vi != ARRV: return err()
        e = strip(ty[2][0])
        return map_seq(x, VT, lambda y: do_des(cx, st, e, y, hr), lambda q: q)
    if k == 'adt' and ty[1] == MK: return OK(x) if vi == OBJV else err()
    return UNK('deserialize ' + repr(ty)[:60])

def alen(t):
    c = t[2]
    if isinstance(c, int): return c
    d = dict(c) if isinstance(c, tuple) else {}
    return int(d['cval']) if 'cval' in d else None

def mapok(r, f):
    return LS('jmapok', lambda z: OK(f(okv(z))) if z.op == 'adt' and z.a[1] == 0 else z, r) if r.op in ('adt', 'ite') else ITE(isok(r), OK(f(okv(r))), err())

def expand(cx, st, j):
    """the document the atom stands for"""
    I = cx.I
    tk = j.a[0][3:]
    ty = ('adt', tk, ())
    im = local_impl(I, SERK, ty)
    if not im: return UNK('document of ' + tk)
    key = impl_item(im, 'serialize'); b = I.P.bodies.get(key)
    if b is None: return UNK('document of ' + tk)
    sub_ = dict(im[1])
    for g in b['generics']:
        if g not in im[0]['generics']: sub_[g] = ST_
    r = I.call_key(key, [j.a[2], ser(j.a[1])], st, sub_)
    return okv(r, VT) if r.op not in ('unk', 'undef') else r

def documents(P, fresh, hook):
    """(type, readable) -> (symbol, Result document), by the type's own serializer"""
    memo = {}
    def f(tk, hr):
        k = (tk, hr.id)
        if k not in memo:
            memo[k] = None
            I = fresh(P); hook(I); install(I)
            ty = ('adt', tk, ())
            im = local_impl(I, SERK, ty)
            key = impl_item(im, 'serialize') if im else None
            b = I.P.bodies.get(key)
            if b:
                from interp import St
                sub_ = dict(im[1])
                for g in b['generics']:
                    if g not in im[0]['generics']: sub_[g] = ST_
                st = St(TRUE, {})
                v = SYM('doc!', ty)
                try: r = I.call_key(key, [v, ser(hr)], st, sub_)
                except Exception: r = None
                if r is not None and not has_unk(r) and st.pc is TRUE: memo[k] = (mk('sym', 'doc!', ty), r)
        return memo[k]
    return f

def arbitrary(j):
    """a document nothing is known about"""
    return j.op in ('sym', 'fld', 'idx') or j.op == 'call' and not j.a[0].startswith('js:')
def any_des(ty, j):
    """whether an arbitrary document is read as a value of ty, and which, is left open"""
    ty = strip(ty)
    if ty == ('tuple', ()): v = UNIT
    elif ty[0] == 'str': v = mk('call', 'anyval', j, STR)
    else: v = mk('call', 'anyval', j, ty)
    return ITE(M.bcall('anyok:' + repr(ty), j), OK(v), err())

# ------------------------------------------------------------------ visitors
FALL = {'visit_string': ('visit_str',), 'visit_borrowed_str': ('visit_str',), 'visit_u64': (), 'visit_i64': (), 'visit_str': (),
        'visit_u8': ('visit_u64',), 'visit_u16': ('visit_u64',), 'visit_u32': ('visit_u64',), 'visit_i8': ('visit_i64',), 'visit_i16': ('visit_i64',), 'visit_i32': ('visit_i64',)}
def visit(cx, st, vty, vis, names, *args):
    """call the visitor's method; a method it does not provide is a type error"""
    I = cx.I
    vty = strip(vty)
    im = local_impl(I, VIS, vty)
    if im is None:
        return UNK('visitor ' + repr(vty)[:60])
    for n in names:
        for m in (n,) + FALL.get(n, ()):
            key = impl_item(im, m)
            if key and key in I.P.bodies and 'root' in I.P.bodies[key]:
                b = I.P.bodies[key]
                sub_ = dict(im[1])
                own = [g for g in b['generics'] if g not in im[0]['generics']]
                for g in own: sub_[g] = ('adt', 'acc!', ()) if m in ('visit_map', 'visit_seq', 'visit_enum') else DT
                return I.call_key(key, [vis] + list(args), st, sub_)
    return err()

def route(cx, st, how, d, vis, vty):
    """deserializer.deserialize_<how>(visitor)"""
    I = cx.I
    hr, j = d.a[2], I.rval(st, d.a[3])
    if j.op in ('unk', 'undef'): return j
    if j.op == 'ite':
        a, b, at = j.a[1], j.a[2], ATOM(j.a[0])
        return I.branch(st, at, lambda s: route(cx, s, how, des(hr, a), vis, vty), lambda s: route(cx, s, how, des(hr, b), vis, vty))
    if j.op == 'call' and j.a[0].startswith('js:'): return route(cx, st, how, des(hr, expand(cx, st, j)), vis, vty)
    if arbitrary(j):
        # any kind of document (objects, whose members would be unknown, apart)
        kinds = [jnull(), jbool(M.bcall('docbool', j)), jnum(mk('call', 'docnum', j, ('int', 'i64'))), jstr(as_seq(mk('call', 'doctext', j, STR))),
                 jarr(as_seq(mk('call', 'doclist', j, ('adt', 'alloc::vec::Vec', (VT,)))))]
        def pick(st_, i):
            if i == len(kinds): return err()
            return I.branch(st_, M.bcall('dockind:%d' % i, j), lambda s: route(cx, s, how, des(hr, kinds[i]), vis, vty), lambda s: pick(s, i + 1))
        return pick(st, 0)
    if j.op != 'adt' or j.a[0] != VK: return UNK('document ' + j.op)
    vi = j.a[1]; x = j.a[2] if len(j.a) > 2 else None
    if how == 'newtype_struct': return visit(cx, st, vty, vis, ['visit_newtype_struct'], d)
    if how == 'option':
        return visit(cx, st, vty, vis, ['visit_none', 'visit_unit']) if vi == NULL else visit(cx, st, vty, vis, ['visit_some'], d)
    if how == 'ignored_any': return visit(cx, st, vty, vis, ['visit_unit'])
    if how == 'enum':
        if vi == STRV: return visit(cx, st, vty, vis, ['visit_enum'], ADT('eacc!', 0, hr, x, jnull(), FALSE))
        if vi == OBJV:
            es = entries(x)
            if len(es) != 1 or not (es[0][1].op == 'adt'): return UNK('enum document') if any(o.op == 'ite' for _, o in es) else err()
            return visit(cx, st, vty, vis, ['visit_enum'], ADT('eacc!', 0, hr, es[0][0], somev(es[0][1], VT), TRUE))
        return err()
    accept = {'struct': (OBJV, ARRV), 'map': (OBJV,), 'seq': (ARRV,), 'tuple': (ARRV,), 'tuple_struct': (ARRV,), 'str': (STRV,), 'string': (STRV,), 'identifier': (STRV,),
              'any': (NULL, BOOL_, NUM, STRV, ARRV, OBJV), 'bool': (BOOL_,), 'char': (STRV,), 'bytes': (STRV, ARRV), 'byte_buf': (STRV, ARRV), 'unit': (NULL,), 'unit_struct': (NULL,)}.get(how)
    if accept is None:
        if how in RANGES or how in ('i128', 'u128'): accept = (NUM,)
        else: return UNK('deserialize_' + how)
    if vi not in accept: return err()
    if vi == NULL: return visit(cx, st, vty, vis, ['visit_unit'])
    if vi == BOOL_: return visit(cx, st, vty, vis, ['visit_bool'], x)
    if vi == STRV: return visit(cx, st, vty, vis, ['visit_string' if how == 'string' else 'visit_str'], x)
    if vi == ARRV: return visit(cx, st, vty, vis, ['visit_seq'], ADT('sacc!', 0, hr, x, INT(0)))
    if vi == OBJV:
        return visit(cx, st, vty, vis, ['visit_map'], ADT('macc!', 0, hr, x, INT(0)))
    # numbers: serde_json reports non-negative integers as u64 and negative ones as i64
    f = lambda s: visit(cx, s, vty, vis, ['visit_u64'], x)
    g = lambda s: visit(cx, s, vty, vis, ['visit_i64'], x)
    c = GE(x, INT(0))
    if c is TRUE: return f(st)
    if c is FALSE: return g(st)
    return I.branch(st, c, f, g)

# ------------------------------------------------------------------ dispatch
def call(cx):
    """model of one serde / serde_json call, or None"""
    n = cx.name; I = cx.I; st = cx.st
    tr = cx.c.get('trait') or ''
    key = cx.key
    if key in ('serde_json::value::to_value', 'serde_json::to_value'):
        return do_ser(cx, st, cx.targs[0], cx.args[0], TRUE)
    if key in ('serde_json::value::from_value', 'serde_json::from_value'):
        return do_des(cx, st, cx.targs[0], cx.args[0], TRUE)
    if key.startswith('serde_json::map::'):
        if n in ('new', 'with_capacity'): return ADT(MK, 0)
        if n == 'insert':
            pl, m = follow(I, st, cx.args[0])
            if pl is None or m.op != 'adt' or m.a[0] != MK: return None
            k = as_seq(cx.v(1)); kt = keytext(k)
            if kt is None: return None
            es = [(a, b) for a, b in entries(m) if keytext(a) != kt]
            I.store(st, pl, obj(es + [(k, SOME(cx.v(2)))]))
            return UNK('replaced entry')
        if n in ('get', 'remove', 'contains_key'):
            pl, m = follow(I, st, cx.args[0])
            kt = keytext(as_seq(cx.v(1)))
            if kt is None or m.op != 'adt' or m.a[0] != MK: return None
            r = NONE
            for a, b in entries(m):
                if keytext(a) == kt: r = b
            if n == 'contains_key': return issome(r)
            if n == 'remove':
                if pl is None: return None
                I.store(st, pl, obj([(a, b) for a, b in entries(m) if keytext(a) != kt]))
            return r
        return None
    if key.endswith('time::serde::rfc3339::serialize') or key == 'time::serde::rfc3339::serialize':
        s = cx.v(1)
        if s.op != 'adt' or s.a[0] != 'ser!': return None
        v = cx.v(0)
        return ITE(M.bcall('rfc3339able', v), OK(jstr(as_seq(mk('call', 'rfc3339', v, STR)))), err())
    if key == 'time::serde::rfc3339::deserialize':
        d = cx.v(0)
        if d.op != 'adt' or d.a[0] != 'des!': return None
        r = do_des(cx, st, STRING, d.a[3], d.a[2])
        if r.op in ('unk', 'undef'): return r
        return cases(cx, isok(r), lambda s: parse3339(okv(r)), lambda s: err())
    if key == 'serde::__private::de::missing_field':
        t = strip(cx.targs[0])
        return OK(NONE) if t[0] == 'adt' and t[1] == OPT else err()
    if tr in ('serde::de::Error', 'serde::ser::Error'): return SERR
    if tr == SERK and n == 'serialize':
        s = cx.v(1)
        if s.op != 'adt' or s.a[0] != 'ser!': return None
        return do_ser(cx, st, cx.targs[0], cx.args[0], s.a[2])
    if tr == DESK and n == 'deserialize':
        d = cx.v(0)
        if d.op != 'adt' or d.a[0] != 'des!': return None
        return do_des(cx, st, cx.targs[0], d.a[3], d.a[2])
    if tr == 'serde::ser::Serializer' or tr == 'serde::de::Deserializer':
        s = cx.v(0)
        if s.op != 'adt' or s.a[0] not in ('ser!', 'des!'): return None
        if n == 'is_human_readable': return s.a[2]
        if s.a[0] == 'des!':
            if not n.startswith('deserialize_'): return None
            return route(cx, st, n[12:], s, cx.args[-1], cx.targs[-1])
        return ser_call(cx, s, n)
    if tr.startswith('serde::ser::Serialize') and len(tr) > len('serde::ser::Serialize'): return compound(cx, tr, n)
    if tr in ('serde::de::MapAccess', 'serde::de::SeqAccess', 'serde::de::EnumAccess', 'serde::de::VariantAccess'): return access(cx, tr, n)
    return None

def parse3339(s):
    """OffsetDateTime::parse(s, Rfc3339)"""
    if s.op == 'ite': return LS('p3339', parse3339, s)
    c = as_seq(s)
    if c.op == 'seq' and len(c.a) == 1 and c.a[0].op == 'sub':
        b = c.a[0].a[0]
        if b.op == 'call' and b.a[0] == 'rfc3339' and c.a[0].a[1] is INT(0) and c.a[0].a[2] is LEN(b): return OK(b.a[1])
    return ITE(M.bcall('isrfc3339', c), OK(mk('call', 'unrfc3339', c, ('adt', 'time::offset_date_time::OffsetDateTime', ()))), err())

def ser_call(cx, s, n):
    I = cx.I; st = cx.st; hr = s.a[2]
    k = n[len('serialize_'):]
    if k == 'str': return OK(jstr(cx.seq(1)))
    if k == 'bool': return OK(jbool(cx.v(1)))
    if k in RANGES: return OK(jnum(cx.v(1)))
    if k in ('none', 'unit', 'unit_struct'): return OK(jnull())
    if k == 'some': return do_ser(cx, st, cx.targs[1], cx.args[1], hr)
    if k == 'bytes': return map_seq(cx.v(1), ('int', 'u8'), lambda x: OK(jnum(x)), jarr)
    if k == 'newtype_struct': return do_ser(cx, st, cx.targs[1], cx.args[2], hr)
    if k == 'unit_variant': return OK(jstr(cx.seq(3)))
    if k == 'newtype_variant':
        r = do_ser(cx, st, cx.targs[1], cx.args[4], hr)
        return r if r.op in ('unk', 'undef') else mapok(r, lambda v: jobj([(as_seq(cx.v(3)), SOME(v))]))
    if k in ('struct', 'map'): return OK(ADT('sst!', 0, hr, obj([])))
    if k in ('seq', 'tuple', 'tuple_struct'): return OK(ADT('ssq!', 0, hr, mk('seq')))
    if k == 'tuple_variant': return OK(ADT('stv!', 0, hr, mk('seq'), as_seq(cx.v(3))))
    if k == 'struct_variant': return OK(ADT('ssv!', 0, hr, obj([]), as_seq(cx.v(3))))
    if k == 'collect_str' or n == 'collect_str':
        return OK(jstr(as_seq(M.render(cx, strip(cx.targs[1]), cx.v(1)))))
    return None

def compound(cx, tr, n):
    I = cx.I; st = cx.st
    pl, s = follow(I, st, cx.args[0])
    if s.op == 'ite': return lift_state(cx, tr, n, pl, s)
    if s.op in ('unk', 'undef'): return s
    if s.op != 'adt' or s.a[0] not in ('sst!', 'ssq!', 'stv!', 'ssv!'): return None
    k = s.a[0]
    if n == 'end':
        if k == 'sst!': return OK(ADT(VK, OBJV, s.a[3]))
        if k == 'ssq!': return OK(jarr(s.a[3]))
        if k == 'stv!': return OK(jobj([(s.a[4], SOME(jarr(s.a[3])))]))
        return OK(jobj([(s.a[4], SOME(ADT(VK, OBJV, s.a[3])))]))
    if n == 'skip_field': return OK(UNIT)
    if pl is None: return None
    hr = s.a[2]
    def put(r, add_):
        if r.op in ('unk', 'undef'):
            I.store(st, pl, UNK('serialized value'))
            return r
        c = I.cond(isok(r), st)
        v = okv(r, VT)
        I.store(st, pl, add_(v))
        return OK(UNIT) if c is TRUE else ITE(c, OK(UNIT), err())
    if n in ('serialize_field', 'serialize_entry') and k in ('sst!', 'ssv!'):
        kt = as_seq(cx.v(1))
        if keytext(kt) is None: return None
        t = cx.targs[-1]
        return put(do_ser(cx, st, t, cx.args[2], hr), lambda v: ADT(k, 0, hr, obj(entries(s.a[3]) + [(kt, SOME(v))]), *s.a[4:]))
    if n in ('serialize_element', 'serialize_field') and k in ('ssq!', 'stv!'):
        return put(do_ser(cx, st, cx.targs[-1], cx.args[1], hr), lambda v: ADT(k, 0, hr, CONCAT(s.a[3], SEQ(ONE(v))), *s.a[4:]))
    return None

def lift_state(cx, tr, n, pl, s):
    return UNK('serializer state')

def access(cx, tr, n):
    I = cx.I; st = cx.st
    pl, a = follow(I, st, cx.args[0])
    if a.op in ('unk', 'undef'): return a
    if a.op != 'adt': return UNK('access ' + a.op)
    if a.a[0] == 'macc!':
        hr, m, pos = a.a[2:]
        if pos.op != 'int' or m.op != 'adt' or m.a[0] != MK: return UNK('map position')
        es = entries(m)[::-1] if REV[0] else entries(m)
        p = pos.a[0]
        if n in ('next_key', 'next_entry'):
            if pl is None: return UNK('map')
            adv = lambda q: ADT('macc!', 0, hr, m, INT(q))
            if p >= len(es): return OK(NONE)
            k, o = es[p]
            c = I.cond(issome(o), st)
            if c is FALSE: return UNK('map')
            if c is not TRUE:
                # the entry is absent: the loop goes on with the next one
                if not I.ctls: return UNK('optional entry')
                s2 = st.fork(NOT(c))
                I.store(s2, pl, adv(p + 1))
                if s2.pc is not FALSE: I.ctls[-1].conts.append((s2.pc, UNIT, s2.mem))
                st.pc = AND(st.pc, c)
                if st.pc is FALSE: return UNDEF
            I.store(st, pl, adv(p + 1))
            r = do_des(cx, st, cx.targs[1], jstr(k), hr)
            if n == 'next_key' or r.op in ('unk', 'undef'): return r if r.op in ('unk', 'undef') else mapok(r, SOME)
            q = do_des(cx, st, cx.targs[2], somev(o, VT), hr)
            return all_ok([r, q], lambda xs: SOME(mk('tup', *xs)))
        if n == 'next_value':
            if p < 1 or p > len(es): return UNK('map')
            return do_des(cx, st, cx.targs[1], somev(es[p - 1][1], VT), hr)
        if n == 'size_hint': return NONE
        return None
    if a.a[0] == 'sacc!':
        hr, s, pos = a.a[2:]
        s = as_seq(s)
        if n == 'size_hint': return NONE
        if n != 'next_element' or pl is None: return None
        c = LT(pos, LEN(s))
        c = I.cond(c, st)
        if c is FALSE: return OK(NONE)
        def f(s_):
            I.store(s_, pl, ADT('sacc!', 0, hr, s, add(pos, INT(1))))
            r = do_des(cx, s_, cx.targs[1], index(s, pos, VT), hr)
            return r if r.op in ('unk', 'undef') else mapok(r, SOME)
        return f(st) if c is TRUE else I.branch(st, c, f, lambda s_: OK(NONE))
    if a.a[0] == 'eacc!':
        hr, k, j, has = a.a[2:]
        if n == 'variant':
            r = do_des(cx, st, cx.targs[1], jstr(k), hr)
            return r if r.op in ('unk', 'undef') else mapok(r, lambda v: mk('tup', v, ADT('vacc!', 0, hr, j, has)))
        return None
    if a.a[0] == 'vacc!':
        hr, j, has = a.a[2:]
        if n == 'unit_variant': return OK(UNIT) if has is FALSE else do_des(cx, st, ('tuple', ()), j, hr)
        if has is FALSE: return err()
        if n == 'newtype_variant': return do_des(cx, st, cx.targs[1], j, hr)
        if n == 'tuple_variant': return route(cx, st, 'tuple', des(hr, j), cx.args[2], cx.targs[1])
        if n == 'struct_variant': return route(cx, st, 'struct', des(hr, j), cx.args[2], cx.targs[1])
    return None

# ------------------------------------------------------------------ entry points
def install(I):
    I.serde = True
    def hook(I_, c, targs, args, st, x, fr, rty):
        cx = M.Cx()
        cx.I = I_; cx.c = c; cx.targs = targs; cx.args = args; cx.st = st; cx.x = x; cx.fr = fr
        cx.rty = rty; cx.key = c['key']; cx.name = c['name']
        return call(cx)
    I.hooks[SERK + '::serialize'] = hook
    I.hooks[DESK + '::deserialize'] = hook
