#!/usr/bin/env python3
"""Decide one property: run.py PROPERTY [--tier quick|thorough] [--seed N] [--keep DIR]

Builds the drivers from /repo's working tree, runs them on the real code, and has TLC check that every
recorded trace is a behaviour of the specification; also model-checks the specification itself.
Exit 0: held.  Exit 1 with a VIOLATION line: broken.  Exit 2: the check could not decide.
"""
import sys, os, json, subprocess, tempfile, shutil, time, re, signal, argparse, collections
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from checks import CHECKS
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
REPLAY = V + '/evidence/replay'

class Undecided(Exception): pass

def tlc(spec, cfg, work, env=None, workers=1, timeout=600, xmx='3g', extra=()):
    """Run TLC; returns (ok, rejected, states, distinct, output)."""
    md = tempfile.mkdtemp(dir=work)
    e = dict(os.environ); e.update(env or {})
    cmd = ['java', '-Xss64m', '-Xmx' + xmx, '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-cp', CP] + list(extra) + \
          ['tlc2.TLC', '-workers', str(workers), '-metadir', md, '-config', cfg, spec]
    p = subprocess.Popen(cmd, cwd=V + '/spec', env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True)
    try: out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); p.wait(); raise Undecided('TLC exceeded %d s on %s' % (timeout, spec))
    finally: shutil.rmtree(md, ignore_errors=True)
    m = re.findall(r'([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct', out)
    gen, dis = [int(x.replace(',', '')) for x in m[-1]] if m else (0, 0)
    ok = p.returncode == 0 and 'Error:' not in out
    if not ok and not m and 'Postcondition' not in out and p.returncode not in (12, 13, 75, 76, 77):
        raise Undecided('TLC failed on %s (exit %d):\n%s' % (spec, p.returncode, out[-3000:]))
    if p.returncode >= 150 or 'OutOfMemory' in out or 'StackOverflow' in out: raise Undecided('TLC failed on %s (exit %d):\n%s' % (spec, p.returncode, out[-3000:]))
    return ok, gen, dis, out

def write_cfg(work, name, module):
    cfg = open('%s/spec/%s.cfg' % (V, module['cfg'])).read()
    for k, v in module.get('set', {}).items():
        val = '"%s"' % v if isinstance(v, str) else ('TRUE' if v else 'FALSE') if isinstance(v, bool) else str(v)
        cfg, n = re.subn(r'(?m)^(\s*%s\s*=).*$' % k, lambda m: m.group(1) + ' ' + val, cfg)
        if n == 0: raise Undecided('no constant %s in %s' % (k, module['cfg']))
    path = '%s/%s.cfg' % (work, name)
    open(path, 'w').write(cfg)
    return path

class Check:
    def __init__(self, pid, tier, seed, work):
        self.pid, self.tier, self.seed, self.work = pid, tier, seed, work
        self.spec = CHECKS[pid]; self.viol = []; self.known = []; self.states = self.trans = self.traces = self.events = 0
        self.kinds = collections.Counter(); self.samples = []; self.mc = []; self.notes = []

    def build(self):
        drivers = sorted({j['driver'] for j in self.jobs})
        b = self.work + '/b'
        os.makedirs(b)
        for env in ({}, {'VCXX': 'g++', 'VLD': 'bfd'}):
            if self.spec.get('san'): env = dict(env, VSAN=self.spec['san'])
            e = dict(os.environ); e.update(env)
            p = subprocess.run([sys.executable, V + '/harness/build.py', b] + drivers, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            if p.returncode == 0: return b
            log = p.stdout
            shutil.rmtree(b, ignore_errors=True); os.makedirs(b)
        raise Undecided('build failed:\n' + '\n'.join([l for l in log.split('\n') if 'error' in l.lower() or 'FAILED' in l][:25]) + log[-1500:])

    def drive(self, b, job, tag):
        """One process on the real code; returns (trace, failure or None)."""
        d = '%s/%s' % (self.work, tag); os.makedirs(d)
        out = '%s/%s.ndjson' % (self.work, tag)
        args = [str(a).replace('{out}', out).replace('{dir}', d) for a in job['args']]
        cmd = [b + '/' + job['driver']] + args
        e = dict(os.environ); e.update(job.get('env', {})); e['HOME'] = d
        e.setdefault('ASAN_OPTIONS', 'detect_leaks=0'); e.setdefault('UBSAN_OPTIONS', 'halt_on_error=1')
        errf = open('%s/%s.err' % (self.work, tag), 'w')
        p = subprocess.Popen(cmd, cwd=d, env=e, stdout=errf, stderr=errf, stdin=subprocess.DEVNULL, start_new_session=True)
        fail = None
        try:
            rc = p.wait(timeout=job.get('limit', 300))
            if rc < 0 or rc >= 128: fail = 'the code under test crashed (%s)' % (signal.Signals(-rc).name if rc < 0 else 'exit %d' % rc)
            elif rc == 3: raise Undecided('driver could not run: ' + open(errf.name).read()[-1500:])
            elif rc != 0: fail = 'the run failed (exit %d)' % rc
        except subprocess.TimeoutExpired: fail = 'the code under test made no progress (%d s)' % job.get('limit', 300)
        finally:
            try: os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError: pass
            errf.close()
            shutil.rmtree(d, ignore_errors=True)
        return out, fail

    def validate(self, job, out, tag):
        mod = job['trace']
        cfg = write_cfg(self.work, tag, mod)
        n = sum(1 for _ in open(out))
        if n == 0: return False, 0, 0, 'empty trace'
        return tlc(mod['spec'] + '.tla', cfg, self.work, env={'TRACE': out}, timeout=job.get('tlc_limit', 600), xmx=job.get('xmx', '3g'),
                   extra=['-Dtlc2.tool.queue.IStateQueue=StateDeque'] if mod.get('dfs') else [])

    def one(self, b, i):
        job = self.jobs[i]; tag = 'j%d' % i
        why = None
        for attempt in range(job.get('attempts', 2)):
            t = tag + ('' if attempt == 0 else 'r%d' % attempt)
            out, fail = self.drive(b, job, t)
            if fail is None:
                ok, gen, dis, txt = self.validate(job, out, t)
                self.note(txt)
                if ok:
                    self.count(out, gen, dis)
                    if attempt: self.notes.append('job %d: first run rejected, re-run accepted: %s' % (i, why))
                    os.unlink(out); return
                why = 'rejected by the specification: ' + '; '.join(re.findall(r'<<"MISMATCH".*?>>', txt)[-6:] or re.findall(r'(?m)^Error:.*$|^.*violated.*$', txt)[:4])
            else: why = fail + ': ' + open('%s/%s.err' % (self.work, t)).read()[-600:].strip()
            if job.get('once'): break
        self.save(job, out, why, i)

    def note(self, txt):
        for k in set(re.findall(r'<<"KNOWN", "([^"]*)"', txt)): self.known.append(k)

    def count(self, out, gen, dis):
        self.traces += 1; self.states += dis; self.trans += gen
        with open(out) as f:
            for k, l in enumerate(f):
                self.events += 1
                try: d = json.loads(l)
                except ValueError: continue
                self.kinds['%s%s' % (d.get('e'), ':' + str(d['r']) if isinstance(d.get('r'), (str, bool)) else '')] += 1
                if len(self.samples) < 3 and k in (40, 60, 5): self.samples.append(l.strip()[:700])

    def save(self, job, out, why, i):
        os.makedirs(REPLAY, exist_ok=True)
        base = '%s/%s-%s-%d' % (REPLAY, self.pid, self.tier, i)
        if os.path.exists(out): shutil.copy(out, base + '.ndjson')
        json.dump({'property': self.pid, 'driver': job['driver'], 'args': job['args'], 'trace': base + '.ndjson', 'spec': job['trace'], 'why': why,
                   'how': 'python3 harness/build.py B %s; B/%s %s; TRACE=... tlc -config <cfg> %s.tla' % (job['driver'], job['driver'], ' '.join(map(str, job['args'])), job['trace']['spec'])}, open(base + '.json', 'w'), indent=1)
        self.viol.append((base + '.json', why))

    def model(self, m):
        t0 = time.time()
        cfg = write_cfg(self.work, 'mc-' + m['cfg'] + str(id(m)), m)
        ok, gen, dis, txt = tlc(m['spec'] + '.tla', cfg, self.work, workers=m.get('workers', 2), timeout=m.get('limit', 800), xmx=m.get('xmx', '6g'), extra=m.get('extra', ()))
        if not ok: raise Undecided('the specification %s does not satisfy its own properties:\n%s' % (m['spec'], txt[-3000:]))
        self.states += dis; self.trans += gen
        self.mc.append({'spec': m['spec'], 'cfg': m['cfg'], 'constants': m.get('set', {}), 'distinct_states': dis, 'states_generated': gen, 'seconds': round(time.time() - t0, 1)})

    def run(self):
        t0 = time.time()
        self.jobs = self.spec['jobs'](self.seed, self.tier)
        models = self.spec.get('models', lambda tier: [])(self.tier)
        with ThreadPoolExecutor(8) as ex:
            fm = [ex.submit(self.model, m) for m in models]
            b = self.build()
            with ThreadPoolExecutor(self.spec.get('par', 7)) as ex2:
                fj = [ex2.submit(self.one, b, i) for i in range(len(self.jobs))]
                for f in fj: f.result()
            for f in fm: f.result()
        min_ev = self.spec.get('expect', {})
        missing = [k for k in min_ev if not any(x == k or x.startswith(k + ':') for x in self.kinds)] if not self.viol else []
        if missing: raise Undecided('nothing exercised: ' + ', '.join(missing))
        known = load_known(self.pid)
        for k in sorted(set(self.known)):
            if k not in known: self.viol.append((V + '/known-findings.json', 'deviation %s is not a listed finding' % k))
        self.wall = time.time() - t0
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.spec['level'], 'wall_s': round(self.wall, 1), 'violations': len(self.viol),
              'coverage': {'states': self.states, 'transitions': self.trans, 'traces_validated_against_impl': self.traces, 'trace_events': self.events,
                           'events_by_kind': dict(sorted(self.kinds.items())), 'model_checking_runs': self.mc, 'samples': self.samples or ['(no trace accepted)']},
              'assumptions': self.spec.get('assumes', [])}
        if self.notes: ev['coverage']['notes'] = self.notes
        if self.viol: ev['coverage']['rejected'] = [w for _, w in self.viol]
        os.makedirs(V + '/evidence', exist_ok=True)
        json.dump(ev, open('%s/evidence/%s.json' % (V, self.pid), 'w'), indent=1)
        for k in sorted(set(self.known)):
            if k in known: print('KNOWN-FINDING: property=%s %s' % (self.pid, known[k]))
        for p, w in self.viol[:5]: print('VIOLATION property=%s replay=%s\n  %s' % (self.pid, p, w))
        if not self.viol: print('%s held: %d traces (%d events) accepted, %d states, %.0f s' % (self.pid, self.traces, self.events, self.states, self.wall))
        return 1 if self.viol else 0

def load_known(pid):
    p = V + '/known-findings.json'
    if not os.path.exists(p): return {}
    return {f['id']: f['what'] for f in json.load(open(p))['findings'] if f['property'] == pid and f.get('status') == 'open'}

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('pid'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1)); ap.add_argument('--keep')
    a = ap.parse_args()
    sys.stdout.reconfigure(line_buffering=True)
    work = a.keep or tempfile.mkdtemp(prefix='verif-%s-' % a.pid)
    os.makedirs(work, exist_ok=True)
    try: return Check(a.pid, a.tier, a.seed, work).run()
    except Undecided as e: print('UNDECIDED %s: %s' % (a.pid, e)); return 2
    finally:
        if not a.keep: shutil.rmtree(work, ignore_errors=True)
sys.exit(main())
