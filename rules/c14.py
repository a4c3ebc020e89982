from rules.preimages import *
rule = 'each schedule function returns the value the protocol derives from the network parameters and the chain height'
explanation = 'The value-numbered summary of each function, unbounded-integer arithmetic included, is compared with the protocol formula under the stated precondition, for every height and every network at once; that the function does not panic under the precondition is decided on the same summary.'
assumptions = ['num_bigint and num_rational compute exact integers and fractions', 'chain heights stay below 2^48 and block intervals are between one second and one month']
floor = 13
CSK = S.CO + 'ChainState'
U64 = ('int', 'u64')
def f(cs, p): return S.F0(cs, CS, p)[0]
def u(v): return FLD(v, 0, 0, ('int', 'u128'))
def cur(n): return ADT(S.CUR, 0, n)
MONTH = 365 * 86400 * 10 ** 9 // 12
SC = 10 ** 24
def ch(cs): return S.child_height(f(cs, 'state.index.height'))
def bpm(cs): return CAST('u64', div(INT(MONTH), M.wns(f(cs, 'network.block_interval'))))
def low(cs): return LT(f(cs, 'state.index.height'), INT(1 << 48))
def interval(cs):
    w = M.wns(f(cs, 'network.block_interval'))
    return AND(GE(w, INT(10 ** 9)), LE(w, INT(MONTH)))

def reward(cs):
    i, m = u(f(cs, 'network.initial_coinbase')), u(f(cs, 'network.minimum_coinbase'))
    r = sub(i, mul(ch(cs), INT(SC)))
    return cur(ITE(GE(r, m), r, m))

def subsidy(cs):
    c, h = ch(cs), f(cs, 'network.hardfork_foundation.height')
    b = bpm(cs)
    a = f(cs, 'state.foundation_primary_address')
    out = S.A(S.C + 'SiacoinOutput')
    i, _ = S.fidx(out, 'value'); j, _ = S.fidx(out, 'address')
    def o(n):
        fs = [None, None]; fs[i] = cur(mul(INT(30000 * SC), n)); fs[j] = a
        return SOME(ADT(out[1], 0, *fs))
    return ITE(LT(c, h), NONE, ITE(EQ0(rem(sub(c, h), b)), ITE(EQ(c, h), o(mul(INT(12), b)), o(b)), NONE))

def tax1(v, cs):
    p = u(S.F(v, FC1, 'payout')[0])
    n, d = (0.039).as_integer_ratio()
    t = ITE(LT(ch(cs), f(cs, 'network.hardfork_tax.height')), div(mul(p, INT(n)), INT(d)), div(mul(p, INT(39)), INT(1000)))
    return cur(sub(t, rem(t, INT(10000))))
FC1 = S.A(S.V1 + 'FileContract')
def tax2(v, cs):
    t = div(add(u(S.F0(v, FC2, 'renter_output.value')[0]), u(S.F0(v, FC2, 'host_output.value')[0])), INT(25))
    return cur(sub(t, rem(t, INT(10000))))

def check(P, tkey, name, want, pre, nargs=0, setup=None, total=True):
    key = method(P, tkey, name)
    label = '%s::%s' % (tkey.replace('sia::', ''), name)
    if key is None: return missing(label, 'public function ' + label)
    def run():
        args = [SYM('self', S.A(tkey))] + ([SYM('cs', CS)] if nargs else [])
        p = pre(*args) if pre else TRUE
        r, I, st = call_method(P, tkey, name, args, st=St(p, {}))
        c = cmpq.compare(I, S, r, want(*args), st.pc)
        if not total: return verdict(c)
        # the precondition rules out every panic
        t = cmpq.compare(I, S, st.pc, p)
        return both(c, t)
    return Ob(label, where(P, key), rule, guard(run))

def obligations(P, tier):
    fresh(P)
    C = lambda n, w, pre=None, **k: check(P, CSK, n, w, pre, **k)
    out = [C('child_height', ch), C('block_reward', reward, low),
           C('maturity_height', lambda cs: add(ch(cs), f(cs, 'network.maturity_delay')), lambda cs: AND(low(cs), LT(f(cs, 'network.maturity_delay'), INT(1 << 48)))),
           C('siafund_count', lambda cs: INT(10000)), C('ancestor_depth', lambda cs: INT(1000)), C('max_block_weight', lambda cs: INT(2000000)),
           C('nonce_factor', lambda cs: ITE(LT(ch(cs), f(cs, 'network.hardfork_asic.height')), INT(1), INT(1009))),
           C('blocks_per_month', bpm, interval), C('foundation_subsidy', subsidy, interval, total=False),
           check(P, S.V2 + 'FileContract', 'tax', tax2, lambda v, cs: LE(add(u(S.F0(v, FC2, 'renter_output.value')[0]), u(S.F0(v, FC2, 'host_output.value')[0])), INT((1 << 128) - 1)), 1),
           check(P, S.V1 + 'FileContract', 'tax', tax1, None, 1)]
    k = method(P, CSK, 'foundation_subsidy')
    def paid():
        # with the ten-minute interval of the public networks the subsidy is always computed, never a panic
        cs = T.SYM('self', CS)
        w = M.wns(f(cs, 'network.block_interval'))
        p = EQ(w, INT(600 * 10 ** 9))
        r, I, st = call_method(P, CSK, 'foundation_subsidy', [cs], st=St(p, {}))
        m = {w: INT(600 * 10 ** 9)}
        return both(cmpq.compare(I, S, subst(r, m), subst(subsidy(cs), m), subst(st.pc, m)), cmpq.compare(I, S, subst(st.pc, m), TRUE))
    if k: out.append(Ob('foundation_subsidy at ten minutes', where(P, k), 'the subsidy is exact and never a panic', guard(paid)))
    k = method(P, S.C + 'ChainIndex', 'child_height')
    if k: 
        def chi():
            ci = SYM('self', S.A(S.C + 'ChainIndex'))
            r, I, st = call_method(P, S.C + 'ChainIndex', 'child_height', [ci])
            return both(cmpq.compare(I, S, r, S.child_height(S.F(ci, S.A(S.C + 'ChainIndex'), 'height')[0])), cmpq.compare(I, S, st.pc, TRUE))
        out.append(Ob('ChainIndex::child_height', where(P, k), rule, guard(chi)))
    else: out.append(missing('ChainIndex::child_height', 'ChainIndex::child_height'))
    return out
