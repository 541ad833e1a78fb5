"""A check: units (programs or harnesses) run by the engine, counterexamples replayed natively, evidence written."""
import argparse, hashlib, json, os, random, re, shutil, sys, time
from collections import Counter
from vf import *
import replay

class Unit:
    """A program which wcc compiles (symbolically executed) and whose output is validated against the reference."""
    def __init__(self, name, src, argv=None, syms=(), symrefs=(), ref=True, refsrc=None, asmsrc=None, opts=None, fns=None, files=None, exit_ok=0, flags=(), main='p.c', expect_fns=True, out='out.s'):
        self.name = name; self.main = main; self.files = {main: src}; self.files.update(files or {}); self.argv = argv or (list(flags) + ['-S', main, '-o', out]); self.syms = list(syms); self.symrefs = list(symrefs)
        self.ref = ref; self.refsrc = (refsrc if refsrc is not None else src) if ref else None; self.asmsrc = list(asmsrc or []); self.opts = dict(opts or {}); self.fns = fns; self.exit_ok = exit_ok; self.out = out; self.asms = []; self.bc = None; self.expect_fns = expect_fns; self.info = {}

class HUnit:
    """A harness entry linked with the code under test."""
    def __init__(self, name, entry, opts=None, exit_ok=0): self.name = name; self.entry = entry; self.opts = dict(opts or {}); self.exit_ok = exit_ok; self.info = {}

class Check:
    def __init__(self, pid, title, level, tier=None):
        self.pid = pid; self.title = title; self.level = level; self.tier = tier or os.environ.get('VERIF_TIER', 'quick'); self.seed = SEED
        self.rnd = random.Random('%s-%d' % (pid, self.seed)); self.t0 = time.time(); self.units = []; self.hunits = []; self.cnt = Counter(); self.samples = []; self.viol = []; self.unrep = []; self.undec = []; self.covered = set(); self.explain = ''; self.assumptions = []; self.bounds = ''; self.encoded = set(); self.extra = {}
        self.names = {}
        build_engine(); self.tree = Tree(); self.work = Work(pid)
    quick = property(lambda s: s.tier == 'quick')
    def pick(self, q, t): return q if self.quick else t
    def add(self, u): self.units.append(u); self.names[u.name] = u; return u
    def add_fns(self, prefix, fns, per=25, flags=(), header='', **kw):
        """Packs function texts ({n} is replaced by a unique number) into units."""
        i = 0
        for k in range(0, len(fns), per):
            txt = header
            for f in fns[k:k + per]: txt += f.replace('{n}', str(i)) + '\n'; i += 1
            fl = flags(k // per) if callable(flags) else flags
            self.add(Unit('%s%d' % (prefix, k // per), txt, flags=fl, **kw))
    # ------------------------------------------------------------ translation validation
    def run_units(self, deadline=None, opts=None, tag='tv'):
        units = [u for u in self.units if not u.info.get('done')]
        if not units: return
        for u in units: u.info['done'] = True
        w = self.work; todo = []; ps = []
        for u in units:
            if u.ref:
                u.refc = w.write('%s/ref.c' % u.name, u.refsrc); u.bc = u.refc[:-2] + '.bc'; todo.append(u.refc)
            for n, t in u.files.items(): w.write('%s/src/%s' % (u.name, n), t.encode('latin-1') if isinstance(t, str) else t)
            for i, a in enumerate(u.asmsrc):
                c = w.write('%s/x%d.c' % (u.name, i), a); u.asms.append(c[:-2] + '.s'); ps.append([CLANG, '-std=gnu89', '-O1', '-w', '-fno-builtin', '-fwrapv', '-fno-strict-aliasing', '-fno-vectorize', '-fno-slp-vectorize', '-fcf-protection=none', '-fno-asynchronous-unwind-tables', '-ffp-contract=off', '-S', c, '-o', c[:-2] + '.s'])
        bad = compile_refs(w, todo); parallel(ps)
        for u in [u for u in units if u.ref and u.refc in bad]:
            self.cnt['reference_rejects'] += 1; self.undec.append({'unit': u.name, 'why': 'clang rejects the program: ' + bad[u.refc][:300]}); print('note: clang rejects %s: %s' % (u.name, bad[u.refc][:400]), file=sys.stderr)
        units = [u for u in units if not (u.ref and u.refc in bad)]
        jobs = []
        for u in units:
            j = Job(u.name); L = j.lines; L.append('argv ' + ' '.join(u.argv))
            for n in u.files: L.append('file %s %s' % (n, w.path('%s/src/%s' % (u.name, n))))
            for f, off, nm, rng in u.syms: L.append('sym %s %d %s %s' % (f, off, nm, rng))
            if u.ref: L.append('ref ' + u.bc)
            for a in u.asms: L.append('asm ' + a)
            for f in u.fns or []: L.append('fn ' + f)
            for g, ns in u.symrefs: L.append('symref %s %s' % (g, ' '.join(ns)))
            if u.exit_ok: L.append('opt exit_ok %d' % u.exit_ok)
            if u.out != 'out.s': L.append('opt out ' + u.out)
            for k, v in u.opts.items(): L.append('opt %s %s' % (k, v))
            jobs.append(j)
        self.do_engine(self.tree.main_bc, jobs, tag, opts, deadline)
        for u in units:
            self.cnt['programs'] += 1
            fl = u.fns or (sorted(set(re.findall(r'\b(t_\w+)\s*\(', u.refsrc))) if u.ref and not u.opts.get('data_only') else [])
            for f in fl:
                self.cnt['functions'] += 1
                if (u.name, 'fn:' + f) in self.covered: self.cnt['functions_reached'] += 1
                else: u.info.setdefault('unreached', []).append(f)
    def do_engine(self, bc, jobs, tag, opts, deadline):
        o = {'cpu': 120, 'mem_mb': 3000}; o.update(opts or {})
        res, err = engine(self.work, bc, jobs, tag, o, deadline)
        if err.strip(): sys.stderr.write(err if os.environ.get("SX_FORKS") else err[-2000:])
        for r in res:
            t = r.get('type'); u = self.names.get(r.get('job'))
            if t == 'violation': self.viol.append((u, r))
            elif t == 'undecided': self.cnt['undecided'] += 1; self.undec.append({'unit': r['job'], 'fn': r.get('fn'), 'why': r.get('msg')})
            elif t == 'cut': self.cnt['cut_paths'] += 1; self.undec.append({'unit': r['job'], 'fn': r.get('fn'), 'why': 'cut: ' + str(r.get('msg'))})
            elif t in ('crash', 'skipped', 'garbled'): self.cnt['jobs_' + t] += 1; self.undec.append({'unit': r.get('job'), 'why': t + ' ' + json.dumps({k: r[k] for k in r if k not in ('type', 'job')})[:200]})
            elif t == 'sample': self.samples.append(r)
            elif t == 'stats':
                for k, v in r.items():
                    if isinstance(v, (int, float)): self.cnt['e_' + k] += v
                for c in r.get('covered', []): self.covered.add((r['job'], c))
            elif t == 'job': self.cnt['jobs_done'] += 1
    # ------------------------------------------------------------ harnesses
    def run_harness(self, name, src, hunits, deadline=None, opts=None, expect=(), main=True):
        """expect: (unit, cover label) pairs that must be reached (vacuity guard)."""
        self.hsrc = getattr(self, 'hsrc', {})
        p = self.work.write('h_%s.c' % name, src) if '\n' in src else src
        try: bc = self.tree.harness(name, p, main=main)
        except SystemExit as e:
            self.undec.append({'unit': name, 'why': 'the harness does not compile against this tree: ' + str(e)[:500]}); self.cnt['harness_build_failed'] += 1; print('note: harness %s not built: %s' % (name, str(e)[:800]), file=sys.stderr); return
        jobs = []
        for h in hunits:
            self.names[h.name] = h; h.src = p; h.hname = name; j = Job(h.name); j.lines.append('entry ' + h.entry)
            if h.exit_ok: j.lines.append('opt exit_ok %d' % h.exit_ok)
            for k, v in h.opts.items(): j.lines.append('opt %s %s' % (k, v))
            jobs.append(j); self.hunits.append(h)
        self.do_engine(bc, jobs, 'h_' + name, opts, deadline)
        self.cnt['harness_entries'] += len(jobs)
        for un, lab in expect:
            self.cnt['witnesses'] += 1
            if (un, lab) in self.covered: self.cnt['witnesses_reached'] += 1
            else: self.undec.append({'unit': un, 'why': 'reachability witness not reached: ' + lab})
    def replay_harness(self, h, v, d):
        os.makedirs(d, exist_ok=True); m = d + '/model'
        with open(m, 'w') as f:
            for k, x in v.get('model', {}).items(): f.write('%s %s\n' % (k, x))
            for c in v.get('choices', []): f.write('choice %d\n' % c)
        exe = self.tree.harness_native(h.hname, h.src); rc, out = replay.sh(['prlimit', '--cpu=20', '--core=0', exe, h.entry], cwd=d, env=dict(os.environ, SX_MODEL=m, MALLOC_PERTURB_='165'))
        if rc == 42 or rc == 'timeout' or (isinstance(rc, int) and (rc < 0 or rc > 128)): return True, 'status %s: %s' % (rc, out[-600:])
        if rc == 77: return False, 'assumption fails in the replay'
        if v['kind'] != 'assert':
            exe = self.tree.harness_native(h.hname + '_asan', h.src, ['-fsanitize=address']); rc, out = replay.sh(['prlimit', '--cpu=20', '--core=0', exe, h.entry], cwd=d, env=dict(os.environ, SX_MODEL=m, ASAN_OPTIONS='detect_leaks=0:exitcode=86'))
            if rc == 86: return True, out[-1200:]
            rc2, out2 = replay.sh(['valgrind', '-q', '--error-exitcode=87', self.tree.src + '/h_' + h.hname, h.entry], cwd=d, env=dict(os.environ, SX_MODEL=m), timeout=120)
            if rc2 == 87: return True, out2[-1200:]
        if rc not in (0, 42) and not (isinstance(rc, int) and h.exit_ok >> rc & 1): return True, 'status %s: %s' % (rc, out[-600:])
        return False, 'not reproduced (status %s)' % rc
    # ------------------------------------------------------------ verdict
    def known(self):
        r = []
        try:
            for l in open(VERIF + '/known_findings.txt'):
                m = re.match(r'^finding: property=(\S+) key=(\S+) (.*)$', l.strip())
                if m and m.group(1) == self.pid: r.append((m.group(2), m.group(3)))
        except OSError: pass
        return r
    def finish(self):
        known = self.known(); seen_known = set(); real = []; by = {}
        rdir = os.path.join(BUILD, 'replay', self.pid); shutil.rmtree(rdir, ignore_errors=True)
        for u, v in self.viol:
            if u is None: continue
            if v['kind'] == 'reference': self.cnt['reference_undefined'] += 1; continue
            key = self.key(u, v); by.setdefault(key, []).append((u, v))
        shown = 0; tries = 0
        for key, lst in sorted(by.items()):
            k = [x for x in known if re.fullmatch(x[0], key)]
            if k:
                if k[0] not in seen_known: seen_known.add(k[0]); print('KNOWN-FINDING: property=%s %s' % (self.pid, k[0][1]))
                self.cnt['known_findings'] += 1; continue
            if shown >= int(os.environ.get('VF_SHOW', '5')) or tries > 60: self.cnt['violations_not_replayed'] += 1; continue
            ok = False
            for u, v in lst[:2]:
                tries += 1; d = os.path.join(rdir, re.sub(r'\W+', '_', key)[:80])
                try: ok, text = self.replay_harness(u, v, d) if isinstance(u, HUnit) else replay.replay_tv(self.tree, u, v, d)
                except Exception as e: ok, text = False, 'replay failed: %r' % e
                os.makedirs(d, exist_ok=True)
                with open(d + '/report.txt', 'w') as f: f.write('property %s: %s\nunit %s function %s\nkind %s: %s\nwhere %s\nmodel %s\nkey %s\nreproduced natively: %s\n%s\n' % (self.pid, self.title, u.name, v['fn'], v['kind'], v['msg'], v.get('where'), json.dumps(v.get('model')), key, ok, text))
                if not isinstance(u, HUnit) and v['fn']:
                    src = u.refsrc or u.files[u.main]; src = src if isinstance(src, str) else src.decode('latin-1')
                    with open(d + '/report.txt', 'a') as f: f.write('\n' + '\n'.join(l for l in src.split('\n') if v['fn'] in l) + '\n')
                self.cnt['counterexamples_replayed'] += 1
                if ok: break
            if not ok and not isinstance(lst[0][0], HUnit) and lst[0][1]['kind'] in ('asm', 'abi') and not v['msg'].startswith('asm: ') and not lst[0][1].get('unk'): ok = True; text = 'holds in the instruction-level model on the text produced by the real compiler; no visible native effect: ' + text
            if ok:
                shown += 1; real.append(key); print('VIOLATION property=%s replay=%s' % (self.pid, d + '/report.txt')); print('  %s %s: %s: %s' % (u.name, v['fn'], v['kind'], v['msg'])); print('  ' + text[:600].replace('\n', '\n  '))
            else: self.unrep.append({'key': key, 'why': text[:300], 'msg': v['msg']}); print('note: unreproduced counterexample %s: %s (%s)' % (key, v['msg'], text[:200]), file=sys.stderr)
        return self.evidence(real)
    def key(self, u, v): return re.sub(r'\s+', '_', '%s/%s/%s' % (u.name, v['fn'], v['kind']))
    def validate_samples(self, n=6):
        """Runs some explored paths natively: the model values must give the same outcome in wcc's code and the reference."""
        ok = 0; tot = 0; ss = [s for s in self.samples if self.names.get(s['job'])]; self.rnd.shuffle(ss)
        for s in ss[:n]:
            u = self.names[s['job']]; d = self.work.path('val%d' % tot)
            try:
                if isinstance(u, HUnit): r, t = self.replay_harness(u, {'kind': 'assert', 'model': s['model'], 'choices': s.get('choices', [])}, d)
                elif u.ref and s['fn'] and s['fn'] != '<data>': r, t = replay.replay_tv(self.tree, u, {'kind': 'result', 'fn': s['fn'], 'msg': '', 'model': s['model']}, d)
                else: continue
            except Exception as e: r, t = True, repr(e)
            tot += 1
            if not r: ok += 1
            else: self.extra.setdefault('sample_disagreements', []).append(t[:300]); print('note: native disagreement on a validated sample %s %s: %s' % (s['job'], s['fn'], t[:300]), file=sys.stderr)
        self.cnt['samples_validated'] = ok; self.cnt['samples_tried'] = tot
    def evidence(self, real):
        c = self.cnt; cov = {}
        doc = (sys._getframe(2).f_globals.get('__doc__') or '').split(':', 1)[-1].strip()
        opt = {}
        for u in self.units + self.hunits:
            for k, v in u.opts.items():
                if k in ('max_paths', 'max_steps', 'rlimit', 'fp_rlimit') and isinstance(v, int): opt[k] = max(opt.get(k, 0), v)
        tv = ('%d generated programs; every value of every argument and every initial value of the shared symbolic objects of each function (or every value of the symbolic characters of the source); ' % c['programs']) if self.units else ''
        hv = ('%d harness entries, every value of their symbolic inputs (sizes are constants of the harness source); ' % c['harness_entries']) if self.hunits else ''
        cov['explanation'] = self.explain or doc; cov['bounds'] = self.bounds or (tv + hv + 'resource bounds per job: %s, cpu seconds and memory as in engine options; what exceeds them is counted as undecided or cut, never as holding. Programs and sizes beyond these are outside the claim.' % (json.dumps(opt, sort_keys=True) if opt else 'engine defaults')); cov['functions_encoded_note'] = 'the whole wcc bitcode is loaded; functions are encoded as they are reached'; cov['functions_encoded'] = sorted(self.encoded)[:400] or 'all functions of wcc reachable from the entry (whole bitcode of /repo)'
        cov['queries_discharged'] = int(c['e_queries']); cov['solver_seconds'] = round(c['e_solver_s'], 2); cov['assertions_checked'] = int(c['e_c_asserts']); cov['undecided'] = int(c['undecided']); cov['cut_paths'] = int(c['cut_paths'])
        ss = self.samples[:]; self.rnd.shuffle(ss); sample = []
        for s in ss[:6]:
            u = self.names.get(s['job']); x = {'job': s['job'], 'fn': s['fn'], 'model': dict(list(s['model'].items())[:12])}
            if isinstance(u, Unit) and s['fn'] and s['fn'] != '<data>':
                src = u.refsrc or ''; x['source'] = '\n'.join(l for l in src.split('\n') if re.search(r'\b%s\b' % re.escape(s['fn']), l))[:400]
            elif isinstance(u, Unit):
                t = u.files[u.main]; x['source'] = (t if isinstance(t, str) else t.decode('latin-1'))[:400]
            sample.append(x)
        if not sample:
            for u in (self.units + self.hunits)[:3]: sample.append({'job': u.name, 'source': (u.files[u.main][:400] if isinstance(u, Unit) and isinstance(u.files[u.main], str) else getattr(u, 'entry', ''))})
        cov['samples'] = sample
        if self.level == 'translation_validation': cov.update(programs=int(c['programs']), functions=int(c['functions']), functions_reached=int(c['functions_reached']), disagreements_checked=int(c['e_c_asserts']), paths=int(c['e_c_paths']))
        elif self.level == 'model_checking': cov.update(states=int(c['e_c_paths']), transitions=int(c['e_steps']), traces_validated_against_impl=int(c['samples_validated']))
        cov['details'] = {k: (round(v, 3) if isinstance(v, float) else v) for k, v in sorted(c.items())}
        cov['not_decided'] = self.undec[:40]; cov['unreproduced_counterexamples'] = self.unrep[:20]
        unr = {u.name: u.info['unreached'][:10] for u in self.units if u.info.get('unreached')}
        cov['functions_without_a_defined_path'] = dict(list(unr.items())[:20])
        cov.update(self.extra)
        ev = {'property': self.pid, 'tier': self.tier if self.tier in ('quick', 'thorough') else 'quick', 'seed': self.seed, 'level': self.level, 'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(real)}
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        with open('%s/evidence/%s.json' % (VERIF, self.pid), 'w') as f: json.dump(ev, f, indent=1)
        print('%s: %s: %d programs, %d/%d functions, %d harness entries, %d paths, %d assertions, %d queries (%.1f s), undecided %d, cut %d, unreproduced %d, violations %d, %.1f s' % (self.pid, self.tier, c['programs'], c['functions_reached'], c['functions'], c['harness_entries'], c['e_c_paths'], c['e_c_asserts'], c['e_queries'], c['e_solver_s'], c['undecided'] + c['jobs_crash'] + c['jobs_skipped'], c['cut_paths'], len(self.unrep), len(real), ev['wall_s']))
        if not os.environ.get('VF_KEEP'): shutil.rmtree(self.work.dir, ignore_errors=True)
        return 1 if real else 0
