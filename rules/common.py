from api import *
from obl import Ob
import cmpq, spec as S, models as M, terms as T, teval
from terms import *
import api
from api import SYM

def where(P, key):
    b = P.bodies.get(key)
    return '%s %s' % (b['span'].split(':')[0], b['pretty']) if b else key

def verdict(c):
    s, t = c
    return {'equal': 'holds', 'differ': 'violated', 'undecided': 'undecided'}[s], t

def both(*cs):
    """conjunction of comparisons"""
    bad = [c for c in cs if c[0] == 'differ']
    if bad: return ('violated', bad[0][1])
    und = [c for c in cs if c[0] == 'undecided']
    if und: return ('undecided', und[0][1])
    return ('holds', '')

def missing(key, what):
    return Ob(key, what, 'the anchor exists', lambda: ('violated', 'missing: ' + what))

def method(P, tykey, name, trait=None):
    """body key of a method of a named type"""
    for k, b in P.bodies.items():
        if k.rsplit('::', 1)[-1] != name or 'root' not in b: continue
        s = b.get('implself')
        if s is None: continue
        t = P.ty(s)
        if t[0] == 'adt' and t[1] == tykey and (b.get('impltrait') == trait if trait else not b.get('impltrait')): return k
    return None

class NoAnchor(Exception): pass

def call_method(P, tykey, name, args, trait=None, st=None, setup=None):
    """(result, interp, state) of a method on symbolic arguments"""
    I = fresh(P)
    nested_hook(I)
    if setup: setup(I)
    k = method(P, tykey, name, trait)
    if k is None: raise NoAnchor('%s::%s' % (tykey, name))
    st = st or St(TRUE, {})
    b = P.bodies[k]
    r = I.call_key(k, args, st, {})
    return r, I, st

def guard(f):
    def g(*a):
        try: return f(*a)
        except NoAnchor as e: return ('violated', 'missing: %s' % e)
    return g
