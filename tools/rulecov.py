#!/usr/bin/env python3
"""rulecov.py PID...: which instruction selection rules of wcc the quick corpora of the checks exercise (development aid)."""
import sys, os, re, random, subprocess, tempfile, importlib
R = '/verif'; sys.path[:0] = [R + '/lib', R + '/checks']
import check
class Cap(check.Check):
    def run_units(self, *a, **k): pass
    def run_harness(self, *a, **k): pass
    def validate_samples(self, *a, **k): pass
    def finish(self): Cap.last = self; return 0
check.Check = Cap
allc = {}
for pid in sys.argv[1:]:
    m = importlib.import_module(pid.lower()); m.Check = Cap; m.main('quick')
    allc[pid] = Cap.last.units
d = tempfile.mkdtemp(); cov = {}
for pid, us in allc.items():
    f = d + '/cov'; open(f, 'w').close(); ps = []
    for i, u in enumerate(us):
        c = '%s/%d.c' % (d, i); open(c, 'w').write(u.files[u.main]); ps.append(subprocess.Popen(['/repo/wcc', '--rule-coverage-file', f, *[a for a in u.argv if a.startswith('-f')], '-S', c, '-o', '/dev/null'], stderr=subprocess.DEVNULL, stdout=subprocess.DEVNULL))
        if len(ps) > 8: ps.pop(0).wait()
    for p in ps: p.wait()
    cov[pid] = set(map(int, open(f).read().split())); print(pid, len(cov[pid]))
al = set().union(*cov.values()); gdb = subprocess.run(['gdb', '-batch', '-ex', 'p instr_rule_count', '/repo/wcc'], capture_output=True, text=True).stdout
print('covered', len(al)); rules = {}
subprocess.run(['rm', '-rf', d])
open('/tmp/cov.txt', 'w').write('\n'.join(map(str, sorted(al))))
