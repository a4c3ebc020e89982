from rules.common import *
import re
technique = 'effect analysis over the type-checked program: every call site, static, unsafe block and cast is classified'
rule = 'no ambient input, no output, no global mutable state, no unsafe operation except volatile wipes of a dying value'
explanation = 'Every expression of every function of the crate (derived and macro-generated code included) is scanned on the type-checked program: resolved callees and function items are matched against the effectful parts of the standard library and of the crates used (clock, environment, files, network, processes, standard streams, randomness, thread identity, unordered iteration), statics must be immutable and free of interior mutability, thread locals and inline assembly must be absent, and code in unsafe blocks may only perform volatile stores, and only in functions used by destructors.'
assumptions = ['dependencies called with explicit arguments are deterministic; unsafe code expanded from macros of other crates belongs to those crates']
floor = 15

STD_DENY = ('std::env::', 'std::fs::', 'std::net::', 'std::process::', 'std::os::', 'std::io::stdio::', 'std::backtrace::', 'std::random::', 'core::random::', 'std_detect::', 'core::arch::', 'std::sys::')
CRATE_DENY = ('rand', 'rand_core', 'rand_chacha', 'getrandom', 'fastrand', 'libc', 'log', 'tracing', 'tokio', 'env_logger', 'nix', 'rustix')
PATH_IO = {'exists', 'try_exists', 'metadata', 'symlink_metadata', 'read_dir', 'canonicalize', 'is_file', 'is_dir', 'is_symlink', 'read_link'}
UNORD = {'iter', 'iter_mut', 'keys', 'values', 'values_mut', 'into_keys', 'into_values', 'drain', 'into_iter', 'difference', 'intersection', 'union', 'symmetric_difference', 'extract_if'}

def hashed(t):
    t = t if t else ('unk',)
    while t[0] in ('ref', 'ptr'): t = t[2]
    return t[0] == 'adt' and re.search(r'hash::(map::HashMap|set::HashSet)$', t[1]) and 'RandomState' in repr(t)

def effect(P, c):
    """why a callee is not a function of its arguments"""
    k = c['key']; n = c.get('name') or ''; root = k.split('::')[0]
    if k.startswith(STD_DENY): return 'uses ' + k.split('::{')[0]
    if root in CRATE_DENY: return 'uses crate ' + root
    if k.startswith('std::time::') and n in ('now', 'elapsed'): return 'reads the clock'
    if root == 'time' and (n.startswith('now') or 'local_offset' in n): return 'reads the clock or the local offset'
    if k.startswith('std::path::') and n in PATH_IO: return 'reads the file system'
    if k.startswith('std::thread::') and n in ('current', 'sleep', 'available_parallelism', 'park', 'park_timeout', 'id', 'yield_now', 'sleep_until'): return 'depends on the thread or on time'
    if k.startswith('std::thread::local'): return 'uses thread-local state'
    if k.startswith('std::hash::random::') and 'RandomState' in repr(P.ty(c['implself']) if 'implself' in c else ''): return 'uses a randomly keyed hasher'
    if root in ('rayon', 'rayon_core') and n in ('current_num_threads', 'current_thread_index', 'find_any', 'find_map_any', 'position_any', 'max_num_threads', 'par_bridge'): return 'depends on scheduling'
    if root in ('ed25519_dalek', 'ed25519', 'bip39', 'curve25519_dalek') and n.startswith(('generate', 'random')): return 'draws randomness'
    if n in UNORD:
        s = P.ty(c['implself']) if 'implself' in c else None
        if hashed(s) or any(hashed(P._arg(a)) for a in c['args'][:1] if isinstance(a, int)) and c.get('trait', '').endswith('IntoIterator'):
            return 'iterates a randomly keyed hash table'
    if k.startswith('std::collections::hash') and n in UNORD: return 'iterates a randomly keyed hash table'
    if n in ('addr', 'expose_provenance', 'expose_addr') and k.startswith('core::ptr::'): return 'uses a memory address as a number'
    return None

def callees(P, b):
    for x in b.get('exprs', ()):
        c = x.get('callee')
        if isinstance(c, dict): yield x, c
        if x['k'] == 'zst':
            t = P.T[x['ty']]
            for y in t[1:]:
                if isinstance(y, dict) and 'key' in y: yield x, y
                elif isinstance(y, str) and '::' in y: yield x, dict(key=y, name=y.rsplit('::', 1)[-1], args=[])

def blocks(x):
    def go(bl):
        yield bl
        for s in bl['stmts']:
            if s.get('else'): yield from go(s['else'])
    if x['k'] == 'block': yield from go(x['b'])

def scan(P, bs):
    n = 0; bad = []
    for b in bs:
        for x, c in callees(P, b):
            n += 1
            e = effect(P, c)
            if e: bad.append('%s: %s (%s)' % (x['sp'], e, b['pretty']))
        for x in b.get('exprs', ()):
            if x['k'] == 'tls': bad.append('%s: thread-local state (%s)' % (x['sp'], b['pretty']))
            if x['k'] == 'asm': bad.append('%s: inline assembly (%s)' % (x['sp'], b['pretty']))
            if x['k'] == 'cast' and isinstance(x.get('e'), int):
                s = P.ty(b['exprs'][x['e']]['ty']); t = P.ty(x['ty'])
                if s[0] in ('ptr', 'fnptr') and t[0] == 'int': bad.append('%s: a memory address is used as a number (%s)' % (x['sp'], b['pretty']))
            t = P.ty(x['ty'])
            if t[0] == 'adt' and t[1].startswith('std::thread::local'): bad.append('%s: thread-local state (%s)' % (x['sp'], b['pretty']))
    if bad: return ('violated', '; '.join(sorted(set(bad))[:4]))
    return ('holds', '%d functions, %d call sites' % (len(bs), n))

STATE = re.compile(r'(OnceLock|OnceCell|Mutex|RwLock|Atomic\w+|RefCell|Cell|UnsafeCell|Condvar|SyncUnsafeCell)\b')
def const_init(P, key):
    """a once-cell is only ever read through get_or_init with an initialiser that captures nothing"""
    for b in P.bodies.values():
        ex = b.get('exprs', ())
        def root(i):
            while ex[i]['k'] in ('scope', 'borrow', 'deref', 'use', 'coerce'): i = ex[i]['e']
            return i
        refs = {i for i, x in enumerate(ex) if x['k'] == 'static' and x['key'] == key}
        good = set()
        for x in ex:
            c = x.get('callee')
            if x['k'] == 'call' and isinstance(c, dict) and c.get('name') == 'get_or_init' and len(x['a']) == 2:
                f = ex[root(x['a'][1])]
                if f['k'] == 'closure' and not f.get('up') or f['k'] == 'zst': good.add(root(x['a'][0]))
        if refs - good: return False
    return True

def statics(P):
    for s in P.statics:
        key, sp, t, mut, freeze, foreign = s
        if foreign and not mut: continue
        ty = repr(P.ty(t))
        if mut: return ('violated', '%s: mutable static %s' % (sp, key))
        if 'LazyLock' in ty and not STATE.search(ty.replace('LazyLock', '')): continue
        if 'OnceLock' in ty and not STATE.search(ty.replace('OnceLock', '')) and const_init(P, key): continue
        if STATE.search(ty) or not freeze: return ('violated', '%s: static %s has interior mutability' % (sp, key))
    return ('holds', '%d statics' % len(P.statics))

OKUNSAFE = {'write_volatile', 'add', 'offset', 'as_mut_ptr', 'wrapping_add', 'cast', 'volatile_set_memory'}
def unsafety(P, bs, users):
    """unsafe blocks of the crate: volatile stores inside destructors (or helpers of destructors) only"""
    n = 0
    for b in bs:
        local = b.get('unsafe') == 1
        for x in b.get('exprs', ()):
            for bl in blocks(x):
                if bl.get('unsafe') == 1: local = True
        if not local: continue
        n += 1
        w = '%s %s' % (b['span'], b['pretty'])
        for x, c in callees(P, b):
            if c.get('unsafe') and c.get('name') not in OKUNSAFE: return ('violated', '%s: unsafe call of %s (%s)' % (x['sp'], c['key'], b['pretty']))
            if c.get('name') in ('transmute', 'from_raw_parts', 'from_raw_parts_mut', 'get_unchecked', 'read_volatile'): return ('violated', '%s: unsafe call of %s (%s)' % (x['sp'], c['key'], b['pretty']))
        for x in b['exprs']:
            if x['k'] == 'deref' and isinstance(x.get('e'), int) and P.ty(b['exprs'][x['e']]['ty'])[0] == 'ptr': return ('violated', '%s: raw pointer dereference (%s)' % (x['sp'], b['pretty']))
        seen = set(); todo = [b['key']]
        while todo:
            k = todo.pop()
            if k in seen: continue
            seen.add(k)
            bb = P.bodies[k]
            if bb['kind'] == 'Closure': up = {k.rsplit('::{closure', 1)[0]}
            elif (bb.get('impltrait') or '').endswith('::Drop'): continue
            else: up = users.get(k, set())
            if not up or bb.get('exported'): return ('violated', '%s: unsafe code outside a destructor' % w)
            todo += up
    return ('holds', '%d functions with unsafe blocks' % n)

def obligations(P, tier):
    out = []; files = {}
    users = {}
    for k, b in P.bodies.items():
        if 'root' not in b: continue
        files.setdefault(b['span'].split(':')[0], []).append(b)
        for x, c in callees(P, b):
            if c['key'] in P.bodies: users.setdefault(c['key'], set()).add(k)
    for f in sorted(files):
        out.append(Ob('effects of ' + f, f, rule, lambda f=f: scan(P, files[f])))
        out.append(Ob('unsafe code of ' + f, f, rule, lambda f=f: unsafety(P, files[f], users)))
    out.append(Ob('statics', 'sia/src', rule, lambda: statics(P)))
    out.append(Ob('unsafe impls', 'sia/src', rule, lambda: next((('violated', '%s: unsafe impl of %s' % (im['span'], im['trait'])) for im in P.impls if im.get('unsafe') and not im['derived'] and not im['trait'].endswith('TrivialClone')), ('holds', '%d impls' % len(P.impls)))))
    return out
