"""P21: dominance, liveness, SSA, live ranges, coalescing and register assignment. Harnesses build functions with symbolic control flow or
symbolic operands, run the real passes and compare with oracles written from the definitions, instruction by instruction."""
from check import *
CFG = ['dom', 'dom_dense', 'dom_dead', 'live1', 'live2', 'live3', 'ssa1', 'ssa2', 'ssa3', 'ssa4', 'ssa7']
BODY = ['diamond', 'loop', 'inloop', 'irreducible', 'selfloop', 'swap']
def main(tier):
    c = Check('P21', 'flow', 'bounded', tier)
    src = open(os.path.dirname(os.path.abspath(__file__)) + '/p21.c').read()
    o = {'cpu': c.pick(300, 3000), 'max_paths': c.pick(100000, 1000000), 'max_steps': 20000000}
    hs = CFG + BODY + ['colour']
    ns = c.pick(4, 5)
    c.run_harness('p21', '#define NB 4\n#define NV 2\n#define NC %d\n#define NS %d\n' % (c.pick(4, 5), ns) + src, [HUnit(h, 'h_' + h, dict(o)) for h in hs], deadline=c.pick(500, 3000), expect=[(h, h) for h in hs])
    # every block but the last ends in a conditional jump to an arbitrary block
    dense = ['dom_dense', 'live2', 'live3', 'ssa3', 'ssa4']
    nb = c.pick(6, 7)
    c.run_harness('p21d', '#define NB %d\n' % nb + src, [HUnit('%s%d' % (h, nb), 'h_' + h, dict(o)) for h in dense], deadline=c.pick(500, 3000), expect=[('%s%d' % (h, nb), h) for h in dense])
    one = ['ssa5', 'ssa6']
    nb = c.pick(5, 6)
    c.run_harness('p21o', '#define NB %d\n' % nb + src, [HUnit('%s_%d' % (h, nb), 'h_' + h, dict(o)) for h in one], deadline=c.pick(500, 3000), expect=[('%s_%d' % (h, nb), h) for h in one])
    return c.finish()
