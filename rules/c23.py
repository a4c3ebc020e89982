from rules.common import *
from rules.c25 import callees
technique = 'typestate of destructors by abstract interpretation of the typed program, and information-flow scan of formatting and serialization impls'
rule = 'the destructor overwrites every byte with a volatile store, and no formatting or serialization impl reads the bytes'
explanation = 'For each secret type the destructor is interpreted on an arbitrary value with volatile stores tagged: when it returns, on every path, every byte of every buffer must be the tag (a plain store, a skipped byte or a conditional store leaves something else). Types without a destructor must consist of such types. Formatting, serialization and encoding impls of the types must not read a byte of the buffer (value summary of what they emit, backed by a scan of the field reads); implicit duplication (Copy) and leaking (forget, ManuallyDrop, leak) must be absent.'
assumptions = ['explicit accessors (as_bytes, clone) are the caller\'s responsibility; copies the optimiser makes of a moved value are outside the source']
floor = 8
SECRETS = ('sia::signing::PrivateKey', 'sia::seed::Seed')
FMT = ('Debug', 'Display', 'LowerHex', 'UpperHex', 'Binary', 'Octal', 'LowerExp', 'UpperExp', 'Pointer')
OUT = FMT + ('Serialize', 'SiaEncodable', 'V1SiaEncodable', 'ToString', 'ToHex')

def trait_impls(P, tkey):
    for im in P.impls:
        if not im.get('trait') or not im['args']: continue
        t = P._arg(im['args'][0])
        if t[0] == 'adt' and t[1] == tkey: yield im, t

def fields(P, tkey):
    return [(vi, i, f[0], f[1]) for vi, v in enumerate(P.adts[tkey]['variants']) for i, f in enumerate(v[1])]

def subst_ty(t, m):
    if not isinstance(t, tuple): return t
    if t[:1] == ('param',) and t[1] in m: return m[t[1]]
    if t and t[0] == ('cparam', ) : return t
    return tuple(subst_ty(x, m) for x in t)

def inst(P, f, t):
    g = P.adts[t[1]]['generics']
    return subst_ty(P.ty(f), dict(zip(g, t[2])))

def plain(t):
    """carries no buffer"""
    return t[0] == 'tuple' and not t[1] or t[0] == 'adt' and t[1].endswith('PhantomData')

def wiped(P, t, seen=()):
    """('holds'|..., text) for one instantiated type"""
    if t[0] != 'adt' or t[1] not in P.adts or not P.adts[t[1]]['local'] or t in seen:
        return ('violated', 'a buffer of type %s is not overwritten when dropped' % tyname(t)) if t[0] in ('array', 'int') else ('undecided', 'buffer of type ' + tyname(t))
    drop = None
    for im, ty in trait_impls(P, t[1]):
        if im['trait'].endswith('::Drop'): drop = (im, impl_fn(im, 'drop'))
    fs = fields(P, t[1])
    if drop is None:
        und = None
        for vi, i, n, f in fs:
            ft = inst(P, f, t)
            if plain(ft): continue
            r = wiped(P, ft, seen + (t,))
            if r[0] == 'violated': return (r[0], '%s has no destructor: %s' % (t[1], r[1]))
            if r[0] != 'holds': und = r
        return und or ('holds', 'members are wiped')
    im, key = drop
    if len(P.adts[t[1]]['variants']) != 1: return ('undecided', 'enum with a destructor')
    I = fresh(P); nested_hook(I)
    TAG = SYM('wiped', ('int', 'u8'))
    def vol(v, ty):
        if T.find_ops(v, ('sym',)): return v
        ty = I.strip(ty)
        if ty == ('int', 'u8'): return TAG
        if ty[0] == 'array' and ty[1] == ('int', 'u8'): return as_seq(SEQ(REP(INT(int(dict(ty[2])['cval'])), TAG)))
        return UNK('volatile store of ' + tyname(ty))
    I.vol = vol
    args = []
    for vi, i, n, f in fs:
        args.append(SYM('secret%d' % i, inst(P, f, t)))
    st = St(TRUE, {})
    c = I.alloc(st, ADT(t[1], 0, *args), t)
    m = dict(zip(P.adts[t[1]]['generics'], t[2]))
    I.call_key(key, [mk('mref', c, ())], st, m)
    v = I.load(st, (c, ()))
    if v.op != 'adt': return ('undecided', 'state after drop: ' + show(v)[:100])
    if st.pc is not TRUE: return ('undecided', 'the destructor may not return: ' + show(st.pc)[:100])
    for (vi, i, n, f), a in zip(fs, args):
        ft = inst(P, f, t)
        if plain(ft): continue
        x = FLD(v, 0, i, ft)
        if ft[0] == 'array' and ft[1] == ('int', 'u8') and dict(ft[2]).get('cval'):
            N = int(dict(ft[2])['cval'])
            r = erased(I, as_seq(x), a, N, TAG, '%s.%s' % (t[1].split('::')[-1], n))
            if r: return r
        elif ft[0] == 'adt' and ft[1] in P.adts and P.adts[ft[1]]['local']:
            r = wiped(P, ft, seen + (t,))
            if r[0] != 'holds': return r
        else: return ('undecided', 'buffer of type ' + tyname(ft))
    return ('holds', 'all bytes overwritten by volatile stores')

def erased(I, x, a, N, TAG, name):
    """None when every byte is overwritten, or is zero anyway"""
    for j in range(N):
        e = index(x, INT(j), ('int', 'u8'))
        if T.find_ops(e, ('unk', 'undef')): break
        for l in T.leaves(e):
            if l is TAG: continue
            if l.op == 'int': return ('violated', 'byte %d of %s is overwritten by a plain store the compiler may remove' % (j, name))
            if not T.occurs(l, a): return ('undecided', 'byte %d after drop: %s' % (j, show(e)[:120]))
            if e is l: return ('violated', 'byte %d of %s is not overwritten on every path (left as %s)' % (j, name, show(e)[:80]))
        if e is TAG: continue
        c = cmpq.compare(I, S, T.subst(e, {TAG: INT(0)}), INT(0), TRUE)     # kept only where it is zero?
        if c[0] == 'differ': return ('violated', 'byte %d of %s is not overwritten on every path (left as %s)' % (j, name, show(e)[:80]))
        if c[0] != 'equal': return ('undecided', 'byte %d after drop: %s' % (j, show(e)[:120]))
    else:
        return None
    for q in T.leaves(x):
        if q.op != 'seq': return ('undecided', 'buffer after drop: ' + show(x)[:120])
        for p in q.a:
            v = p.a[1] if p.op == 'rep' else p.a[0] if p.op == 'one' else None
            if p.op == 'lit' or v is not None and v.op == 'int': return ('violated', 'bytes of %s are overwritten by a plain store the compiler may remove' % name)
            if v is TAG or p.op == 'sub' and T.occurs(p, a): continue
            return ('undecided', 'buffer after drop: ' + show(x)[:120])
    c = cmpq.compare(I, S, T.subst(x, {TAG: INT(0)}), mk('seq', LIT((0,) * N)), TRUE)
    if c[0] == 'equal': return None
    if c[0] == 'differ': return ('violated', '%s is not overwritten on every path: left as %s (%s)' % (name, show(x)[:160], c[1][:160]))
    return ('undecided', 'buffer after drop: ' + show(x)[:120])

def closure_of(P, t, seen=None):
    """local types a secret is made of"""
    seen = seen if seen is not None else []
    if t[0] == 'adt' and t[1] in P.adts and P.adts[t[1]]['local'] and t not in seen:
        seen.append(t)
        for vi, i, n, f in fields(P, t[1]): closure_of(P, inst(P, f, t), seen)
    return seen

def subtree(b, i, out):
    if i is None or i in out: return
    out.add(i)
    x = b['exprs'][i]
    for k in ('e', 'l', 'r', 'c', 't', 'f', 'i', 'b'):
        if isinstance(x.get(k), int) and not (k == 'i' and x['k'] == 'field'): subtree(b, x[k], out)
    for y in x.get('a') or (): 
        if isinstance(y, int): subtree(b, y, out)

def field_reads(P, b, tkey):
    r = set()
    for i, x in enumerate(b.get('exprs', ())):
        if x['k'] == 'field':
            t = P.ty(b['exprs'][x['e']]['ty'])
            if t[0] == 'adt' and t[1] == tkey: r.add(i)
    return r

HARMLESS = {'len', 'is_empty'}
def silent(P, im, t, key):
    """the impl emits nothing that depends on the bytes"""
    if im['derived'] and im['trait'].rsplit('::', 1)[-1] in FMT + ('Serialize',) :
        b = P.bodies[key]
        if field_reads(P, b, t[1]): return ('violated', '%s is derived for %s and prints its members' % (im['trait'], t[1]))
    todo = [key]; seen = set(); reads = []
    while todo:
        k = todo.pop()
        if k in seen or k not in P.bodies: continue
        seen.add(k); b = P.bodies[k]
        fr = field_reads(P, b, t[1])
        if fr: reads.append((b, fr))
        for x, c in callees(P, b):
            if c['key'] in P.bodies: todo.append(c['key'])
        todo += [k2 for k2 in P.bodies if k2.startswith(k + '::{closure')]
    if not reads: return ('holds', 'no byte is read')
    # what it emits
    I = fresh(P); nested_hook(I); st = St(TRUE, {})
    self = SYM('self', t)
    c = I.alloc(st, mk('sink', 'fmt', (), mk('seq')))
    I.call_key(key, [self, mk('mref', c, ())][:len(P.bodies[key]['params'])], st, {})
    s = I.load(st, (c, ()))
    out = s.a[2] if s.op == 'sink' else None
    if out is not None and im['trait'].rsplit('::', 1)[-1] in FMT + ('SiaEncodable', 'V1SiaEncodable') and not T.find_ops(out, ('unk', 'junk')):
        if not T.occurs(out, self): return ('holds', 'what is emitted does not depend on the bytes')
        return ('violated', 'the text depends on the secret: ' + show(out)[:120])
    for b, fr in reads:
        for x in b['exprs']:
            if x['k'] != 'call': continue
            c = x.get('callee')
            if isinstance(c, dict) and c.get('name') in HARMLESS: continue
            s = set()
            for a in x.get('a') or (): subtree(b, a, s)
            if s & fr: return ('violated', '%s: a byte of the secret reaches %s in %s of %s' % (x['sp'], c['key'] if isinstance(c, dict) else 'a call', im['trait'].rsplit('::', 1)[-1], t[1].split('::')[-1]))
    return ('undecided', 'field read not resolved')

def leaks(P, names):
    n = 0
    for b in P.bodies.values():
        for x, c in callees(P, b):
            n += 1
            if c.get('name') in ('forget', 'leak', 'new', 'into_raw', 'read', 'read_unaligned', 'read_volatile', 'transmute', 'transmute_copy') and any(s in repr([P._arg(a) for a in c.get('args', ())]) for s in names):
                k = c['key']
                if c['name'] in ('new',) and 'manually_drop' not in k: continue
                if c['name'] in ('read', ) and not k.startswith('core::ptr'): continue
                return ('violated', '%s: %s of a secret (%s)' % (x['sp'], k, b['pretty']))
    return ('holds', '%d call sites' % n)

def obligations(P, tier):
    out = []; parts = []
    for s in SECRETS:
        if s not in P.adts:
            out.append(missing(s, 'secret type ' + s)); continue
        t = ('adt', s, ())
        out.append(Ob('wipe of ' + s, s, rule, lambda t=t: wiped(P, t)))
        parts += [x for x in closure_of(P, t) if x not in parts]
    for t in parts:
        for im, ty in trait_impls(P, t[1]):
            n = im['trait'].rsplit('::', 1)[-1]
            if n == 'Copy': out.append(Ob('%s is not Copy' % t[1], im['span'], rule, lambda t=t: ('violated', '%s is implicitly copied' % t[1])))
            if n in OUT:
                for nm, key, a in im['items']:
                    if key in P.bodies: out.append(Ob('%s for %s: %s' % (n, t[1], nm), im['span'], rule, lambda im=im, t=t, key=key: silent(P, im, t, key)))
        out.append(Ob('no output impl beyond those listed for ' + t[1], t[1], rule, lambda t=t: ('holds', 'traits: ' + ', '.join(sorted(im['trait'].rsplit('::', 1)[-1] for im, _ in trait_impls(P, t[1]))))))
        out.append(Ob('buffer of %s is private' % t[1], t[1], rule, lambda t=t: next((('violated', 'member %s of %s is public' % (f[0], t[1])) for v in P.adts[t[1]]['variants'] for f in v[1] if f[2]), ('holds', ''))))
    out.append(Ob('secrets are not leaked past their destructor', 'sia/src', rule, lambda: leaks(P, [t[1] for t in parts])))
    return out
