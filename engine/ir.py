"""Loads the dump of the type-checked crate and offers lookups over it."""
import json

# a deque is the sequence of its elements
SAME = {'alloc::collections::vec_deque::VecDeque': 'alloc::vec::Vec'}
class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.T = [self._ty(t) for t in d['types']]
        self.bodies = {}
        for b in d['bodies']:
            self.bodies[b['key']] = b
        self.impls = d['impls'] if isinstance(d['impls'], list) else list(d['impls'].values())
        self.adts = d['adts'] if isinstance(d['adts'], dict) else {a['key']: a for a in d['adts']}
        self.consts = d['consts']
        self.statics = d['statics']
        self._tystr = {}
        self.impl_by_trait = {}
        for im in self.impls:
            if im.get('trait'):
                self.impl_by_trait.setdefault(im['trait'], []).append(im)

    def _ty(self, t):
        return t

    def ty(self, i):
        """interned type id -> structural tuple (recursively expanded)"""
        r = self._tystr.get(i)
        if r is None:
            r = self._exp(self.T[i])
            self._tystr[i] = r
        return r

    def _exp(self, t):
        k = t[0]
        if k in ('int', 'float', 'param', 'str', 'bool', 'char', 'never', 'unk', 'other'):
            return tuple(x if not isinstance(x, list) else tuple(x) for x in t)
        if k == 'adt':
            return ('adt', SAME.get(t[1], t[1]), tuple(self._arg(x) for x in t[2]))
        if k == 'ref' or k == 'ptr':
            return (k, t[1], self.ty(t[2]))
        if k == 'array':
            c = t[2]
            return ('array', self.ty(t[1]), tuple(sorted(c.items())) if isinstance(c, dict) else c)
        if k == 'slice':
            return ('slice', self.ty(t[1]))
        if k == 'tuple':
            return ('tuple', tuple(self.ty(x) for x in t[1]))
        if k == 'proj':
            return ('proj', t[1], t[2], tuple(self._arg(x) for x in t[3]))
        if k == 'closure':
            return ('closure', t[1])
        return tuple(json.dumps(x) if isinstance(x, (list, dict)) else x for x in t)

    def _arg(self, x):
        if isinstance(x, int):
            return self.ty(x)
        if isinstance(x, dict):
            return tuple(sorted(x.items()))
        return x

def pp(P, b, e=None, ind=0):
    """debug rendering of a body"""
    E = b['exprs']
    def pat(p):
        k = p['k']
        if k == 'wild': return '_'
        if k == 'bind': return f"{p['name']}#{p['var']}" + (f"@{pat(p['sub'])}" if p.get('sub') else '') + ('&' if p['by'] != 'move' else '')
        if k == 'variant': return f"{p['vn']}(" + ','.join(f"{s[0]}:{pat(s[1])}" for s in p['subs']) + ')'
        if k == 'leaf': return '(' + ','.join(f"{s[0]}:{pat(s[1])}" for s in p['subs']) + ')'
        if k in ('deref', 'derefp'): return '*' + pat(p.get('p') or p.get('sub'))
        if k == 'const': return str(p['v'])
        if k == 'or': return '|'.join(pat(x) for x in p['pats'])
        return json.dumps(p)
    def go(i):
        x = E[i]
        k = x['k']
        if k == 'scope' or k == 'use' or k == 'never': return go(x['e'])
        if k == 'var': return f"v{x['v']}"
        if k == 'upvar': return f"up{x['v']}"
        if k == 'deref': return '*' + go(x['e'])
        if k == 'borrow': return ('&mut ' if x['m'] else '&') + go(x['e'])
        if k == 'field': return go(x['e']) + f".{x['i']}"
        if k == 'lit': return repr(x['v'])
        if k == 'zst':
            return json.dumps(P.ty(x['ty']))[:200]
        if k == 'call':
            f = E[x['f']]
            c = x.get('callee')
            if c:
                a = '<' + ','.join(str(P._arg(t)) for t in c['args']) + '>' if c.get('args') else ''
                return f"{c['key']}{a}(" + ', '.join(go(y) for y in x['a']) + ')'
            return go(x['f']) + '(' + ', '.join(go(y) for y in x['a']) + ')'
        if k == 'bin': return f"({go(x['l'])} {x['op']} {go(x['r'])})"
        if k == 'logic': return f"({go(x['l'])} {x['op']} {go(x['r'])})"
        if k == 'un': return f"{x['op']}({go(x['e'])})"
        if k == 'cast': return f"({go(x['e'])} as {P.ty(x['ty'])})"
        if k == 'coerce': return f"coerce({go(x['e'])})"
        if k == 'if': return f"if {go(x['c'])} then {go(x['t'])} else {go(x['f']) if x.get('f') is not None else '()'}"
        if k == 'match':
            return f"match {go(x['e'])} {{\n" + ''.join('   ' + pat(a['p']) + (f" if {go(a['g'])}" if a.get('g') is not None else '') + ' => ' + go(a['b']) + '\n' for a in x['arms']) + '}'
        if k == 'let': return f"let {pat(x['p'])} = {go(x['e'])}"
        if k == 'block':
            bb = x['b']
            s = '{\n'
            for st in bb['stmts']:
                if st['k'] == 'let':
                    s += f"  let {pat(st['p'])} = {go(st['e']) if st.get('e') is not None else '?'}" + (' else ' + json.dumps(st['else'])[:80] if st.get('else') is not None else '') + ';\n'
                else:
                    s += '  ' + go(st['e']) + ';\n'
            if bb.get('e') is not None: s += '  ' + go(bb['e']) + '\n'
            return s + '}'
        if k == 'loop': return 'loop ' + go(x['b'])
        if k == 'break': return f"break@{x['s']} " + (go(x['e']) if x.get('e') is not None else '')
        if k == 'continue': return f"continue@{x['s']}"
        if k == 'return': return 'return ' + (go(x['e']) if x.get('e') is not None else '')
        if k == 'assign': return f"{go(x['l'])} = {go(x['r'])}"
        if k == 'assignop': return f"{go(x['l'])} {x['op']}= {go(x['r'])}"
        if k == 'index': return f"{go(x['e'])}[{go(x['i'])}]"
        if k == 'adt': return f"{x['adt']}::{x['vi']}{{" + ', '.join(f"{f[0]}:{go(f[1])}" for f in x['fs']) + ('..' + json.dumps(x['base']) if x.get('base') is not None else '') + '}'
        if k == 'tuple' or k == 'array': return k + '(' + ', '.join(go(y) for y in x['a']) + ')'
        if k == 'repeat': return f"[{go(x['e'])}; {x['n']}]"
        if k == 'closure': return f"|{x['key']} up={[go(u) for u in x['up']]}|"
        if k == 'const': return f"const {json.dumps(x['callee'])} {json.dumps(x.get('v'))}"
        return json.dumps(x)
    return go(b['root'] if e is None else e)

if __name__ == '__main__':
    import sys
    P = Program(sys.argv[1])
    for k, b in P.bodies.items():
        if sys.argv[2] in k or sys.argv[2] in b['pretty']:
            print('==', k, '|', b['pretty'], b['span'], [(p['pat'] or {}).get('name') for p in b['params']] if b.get('params') else '')
            print(pp(P, b))
