"""P20: the containers. Harnesses run sequences of operations with symbolic keys, values and elements on the real code and compare them,
through the public interface, with array models."""
from check import *
H = ['longmap', 'longmap_end', 'longmap_any', 'longmap_grow', 'longmap_many', 'longmap_copy', 'longset', 'strmap', 'strmap_any', 'strmap_grow', 'strset', 'set', 'set_cache', 'stack', 'list', 'sb', 'wasprintf', 'cll', 'graph']
def main(tier):
    c = Check('P20', 'containers', 'bounded', tier)
    src = open(os.path.dirname(os.path.abspath(__file__)) + '/p20.c').read()
    c.run_harness('p20', '#define NOPS %d\n' % c.pick(4, 6) + src, [HUnit(h, 'h_' + h, {'cpu': c.pick(100, 1000), 'max_paths': c.pick(20000, 1000000), 'max_steps': 20000000}) for h in H], deadline=c.pick(300, 3000),
        expect=[('longmap', 'longmap'), ('strmap', 'strmap'), ('set', 'set'), ('graph', 'graph'), ('stack', 'stack'), ('list', 'list'), ('sb', 'sb'), ('longset', 'longset'), ('strset', 'strset')])
    return c.finish()
