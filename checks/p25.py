"""P25: the driver. main.c runs symbolically with the compilation phases, system() and the environment replaced by recording stand-ins; the
command line elements, characters in them and the status of every tool are symbolic."""
from check import *
H = ['cmd', 'tail', 'files', 'repeat', 'missing', 'nothing', 'names']
def main(tier):
    c = Check('P25', 'driver', 'bounded', tier)
    src = open(os.path.dirname(os.path.abspath(__file__)) + '/p25.c').read()
    o = {'cpu': c.pick(200, 2000), 'max_paths': c.pick(100000, 1000000), 'max_steps': 20000000}
    c.run_harness('p25', '#define NT %d\n' % c.pick(2, 3) + src, [HUnit(h, 'h_' + h, dict(o)) for h in H], deadline=c.pick(400, 3000), main=False,
        expect=[('cmd', 'ok'), ('cmd', 'refused'), ('cmd', 'failed'), ('tail', 'ok'), ('files', 'ok'), ('files', 'failed'), ('files', 'refused'), ('repeat', 'ok'), ('missing', 'refused'), ('nothing', 'refused'), ('names', 'ok')])
    return c.finish()
