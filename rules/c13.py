from rules.preimages import *
rule = 'the function returns the prefix given by the latest activated hardfork'
explanation = 'The summary of the function (a decision diagram over comparisons of the height of the current index with the network parameters) has the normal form of the protocol rule: compared for every height and parameters at once.'
assumptions = []
floor = 1
def obligations(P, tier):
    key = method(P, S.CO + 'ChainState', 'replay_prefix')
    if key is None: return [missing('replay_prefix', 'ChainState::replay_prefix')]
    def run():
        cs = SYM('self', CS)
        r, I, st = call_method(P, S.CO + 'ChainState', 'replay_prefix', [cs])
        return verdict(cmpq.compare(I, S, r, prefix(cs)))
    return [Ob('ChainState::replay_prefix', where(P, key), rule, guard(run))]
