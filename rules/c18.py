from rules.preimages import *
rule = 'the sector root is the balanced Merkle tree over the 65536 segments in position; other lengths are rejected'
explanation = 'Each parallel loop is summarised as one symbolic iteration over disjoint blocks (no iteration may touch anything but its own block), the level loop unrolls because its bound is a constant, and the resulting term, a tree of 131071 hashes over the symbolic sector, is compared with the protocol tree. Rejection of other lengths is decided on the path condition.'
assumptions = ['hash_many and rayon give the result of the sequential scalar computation (C28, not applicable)']
floor = 2
HT = S.A(HASH)
KEY = 'sia::rhp::sector_root'
def sector(n): return SYM('sector', ('array', ('int', 'u8'), (('cval', str(n)),)))

def find(P):
    for k, b in P.bodies.items():
        if b.get('name') == 'sector_root' and b['kind'] == 'Fn' and b.get('vis') != 'priv' and 'rhp' in k: return k
    return None

FREE = {'adt', 'seq', 'sub', 'hb', 'lit', 'one', 'sym', 'int', 'raw', 'rep'}
def free(n):
    """only hashes of constant positions of the sector: different normal forms are different functions"""
    seen = set(); todo = [n]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple): todo.extend(x); continue
        if not isinstance(x, Node) or x.id in seen: continue
        seen.add(x.id)
        if x.op not in FREE: return False
        if x.op == 'sub' and x.a[0].op not in ('sym', 'hb', 'seq'): return False
        todo.extend(x.a)
    return True
def first_diff(a, b):
    path = []
    while True:
        if not (isinstance(a, Node) and isinstance(b, Node)) or a.op != b.op or len(a.a) != len(b.a): break
        d = [(i, x, y) for i, (x, y) in enumerate(zip(a.a, b.a)) if x is not y and x != y]
        if not d: break
        if a.op == 'seq': path.append('child %d' % d[0][0])
        _, a, b = d[0]
    return 'at ' + '/'.join(path) + ': ' + (show(a)[:150] if isinstance(a, Node) else str(a)) + ' instead of ' + (show(b)[:150] if isinstance(b, Node) else str(b))

def obligations(P, tier):
    k = find(P)
    if k is None: return [missing('sector_root', 'rhp::sector_root')]
    def tree():
        import gc; gc.disable()
        I = fresh(P); nested_hook(I); st = St(TRUE, {})
        s = sector(1 << 22)
        r = I.call_key(k, [s], st, {})
        level = [M.HB(32, CONCAT(byts(0), mk('seq', SUB(s, INT(64 * j), INT(64))))) for j in range(65536)]
        while len(level) > 1:
            level = [M.HB(32, mk('seq', LIT((1,)), SUB(level[j], INT(0), INT(32)), SUB(level[j + 1], INT(0), INT(32)))) for j in range(0, len(level), 2)]
        want = ADT(HASH, 0, as_seq(level[0]))
        if r is want and st.pc is TRUE: return ('holds', '')
        if st.pc is FALSE: return ('violated', 'always panics')
        if has_unk(r):
            for b in (0, 255, 1):
                v = uniform(b)
                if v[0] == 'violated': return v
            return ('undecided', cmpq.why_unk(r))
        if st.pc is TRUE and free(r): return ('violated', 'the tree differs from the protocol tree ' + first_diff(r, want))
        return both(cmpq.compare(I, S, r, want, st.pc, tries=1, budget=200), ('equal', '') if st.pc is TRUE else ('undecided', 'path condition'))
    def uniform(b):
        """the sector of one repeated byte"""
        I = fresh(P); nested_hook(I); st = St(TRUE, {})
        r = I.call_key(k, [as_seq(SEQ(REP(INT(1 << 22), INT(b))))], st, {})
        h = M.HB(32, CONCAT(byts(0), as_seq(SEQ(REP(INT(64), INT(b))))))
        for _ in range(16): h = M.HB(32, mk('seq', LIT((1,)), SUB(h, INT(0), INT(32)), SUB(h, INT(0), INT(32))))
        want = ADT(HASH, 0, as_seq(h))
        if r is want: return ('holds', '')
        if has_unk(r) or st.pc is not TRUE or not free(r): return ('undecided', '')
        return ('violated', 'the root of a sector of bytes %d differs from the protocol tree ' % b + first_diff(r, want))
    def length():
        import gc; gc.disable()
        def upto(s):
            """path condition at the first loop (or at the end)"""
            I = fresh(P); nested_hook(I); st = St(TRUE, {})
            seen = []
            def stop(st, *a): seen.append(st.pc); raise Reached()
            I.loop = stop
            try: I.call_key(k, [s], st, {})
            except Reached: return seen[0]
            return st.pc
        s = SYM('sector', ('slice', ('int', 'u8')))
        pc = upto(s)
        if AND(pc, NOT(EQ(LEN(s), INT(1 << 22)))) is FALSE: return ('holds', '')
        for n in ((1 << 22) + 64, (1 << 22) - 64, (1 << 22) + 1):
            if upto(sector(n)) is FALSE: continue
            I = fresh(P); nested_hook(I); st = St(TRUE, {})
            r = I.call_key(k, [sector(n)], st, {})
            if st.pc is TRUE: return ('violated', 'a sector of %d bytes is accepted' % n)
        return ('undecided', 'rejection not found before the loops')
    def uniforms():
        for b in (0, 255, 1):
            v = uniform(b)
            if v[0] != 'holds': return v
        return ('holds', '')
    return [Ob('sector_root uniform', where(P, k), 'the root of a sector of one repeated byte is the protocol tree', uniforms, limit=200), Ob('sector_root tree', where(P, k), 'the term of the root is the protocol tree', tree, limit=600), Ob('sector_root length', where(P, k), 'a length other than 4 MiB never reaches a result', length, limit=200)]
class Reached(Exception): pass
