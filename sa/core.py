"""Running a check: obligations, violations, evidence, known findings."""
import json
import os
import pickle
import sys
import time
import traceback

from .interp import AnalysisError
from .lib import World, Lost

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('POLOG_REPO', '/repo')


class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.worlds = []
        self.rules = {}
        self.fails = {}
        self.samples = []
        self.notes = []

    def world(self, policy=None, modules=None):
        w = World(REPO, policy, modules)
        self.worlds.append(w)
        return w

    def ok(self, rule, construct=None):
        r = self.rules.setdefault(rule, [0, set()])
        r[0] += 1
        if construct is not None:
            r[1].add(construct)

    def fail(self, rule, construct, what, path=None, loc=None):
        """construct identifies the code (file:function), never a line number"""
        self.ok(rule, construct)
        key = '%s|%s' % (rule, construct)
        if key in self.fails:
            return
        d = {'rule': rule, 'construct': construct, 'what': what, 'loc': loc}
        if path is not None:
            d['facts'] = path.facts_text(60)
            d['outcome'] = path.show_exc() or 'returns'
            d['trace'] = trace_text(path)
        self.fails[key] = d

    def check(self, cond, rule, construct, what, path=None, loc=None):
        if cond:
            self.ok(rule, construct)
        else:
            self.fail(rule, construct, what, path, loc)
        return cond

    def need(self, cond, what):
        if not cond:
            raise Lost(what)

    def floor(self, rule, n):
        got = self.rules.get(rule, [0])[0]
        if got < n:
            raise Lost('rule %s was instantiated %d times, expected at least %d: the construct it is anchored on is gone' % (rule, got, n))

    def spread(self, jobs, fn, workers=6):
        """fn(job) for every job, in several processes; obligations and violations come together here"""
        workers = min(workers, os.cpu_count() or 1, len(jobs))
        if workers < 2:
            for j in jobs:
                fn(j)
            return
        kids = []
        for i in range(workers):
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid:
                os.close(w)
                kids.append((pid, r))
                continue
            err = None
            try:
                os.close(r)
                self.rules, self.fails, self.samples = {}, {}, []
                before = [(x.paths, x.clients, x.it.branches, x.it.steps, x.it.cuts) for x in self.worlds]
                for j in jobs[i::workers]:
                    fn(j)
            except AnalysisError as e:
                err = '%s: %s' % (type(e).__name__, e)
            except BaseException:
                err = 'internal error of the analysis: ' + traceback.format_exc()[-2500:]
            try:
                worlds = [((x.paths - b[0], x.clients - b[1], x.it.branches - b[2], x.it.steps - b[3], x.it.cuts - b[4]), set(x.it.analysed), sorted(map(str, x.it.opaque_seen))) for x, b in zip(self.worlds, before)]
                fails = {k: {a: b if isinstance(b, (list, type(None))) else str(b) for a, b in v.items()} for k, v in self.fails.items()}
                data = pickle.dumps((err, {k: (v[0], set(map(str, v[1]))) for k, v in self.rules.items()}, fails, self.samples, worlds))
                with os.fdopen(w, 'wb') as f:
                    f.write(data)
            finally:
                os._exit(0)
        errs = []
        for pid, r in kids:
            with os.fdopen(r, 'rb') as f:
                data = f.read()
            os.waitpid(pid, 0)
            if not data:
                errs.append('a worker of the analysis died')
                continue
            err, rules, fails, samples, worlds = pickle.loads(data)
            if err:
                errs.append(err)
            for k, (n, c) in rules.items():
                x = self.rules.setdefault(k, [0, set()])
                x[0] += n
                x[1] |= c
            for k, v in fails.items():
                self.fails.setdefault(k, v)
            for x in samples:
                self.sample(x)
            for x, (d, analysed, opaque) in zip(self.worlds, worlds):
                x.paths, x.clients, x.it.branches, x.it.steps, x.it.cuts = (a + b for a, b in zip((x.paths, x.clients, x.it.branches, x.it.steps, x.it.cuts), d))
                x.it.analysed |= analysed
                for o in opaque:
                    x.it.opaque_seen.add(o) if isinstance(x.it.opaque_seen, set) else x.it.opaque_seen.setdefault(o, 1)
        if errs:
            raise Lost(errs[0])

    def sample(self, text):
        if len(self.samples) < 8:
            self.samples.append(text)


def trace_text(path, limit=80):
    out = []
    for e in path.events():
        if e.kind == 'enter':
            out.append('enter %s (%s)' % (e.data['qual'], e.loc[0]))
        elif e.kind == 'call':
            r = e.data.get('raised')
            out.append('call %s%s at %s:%s' % (e.data['name'], ' raises' if r is not None else '', e.loc[0], e.loc[1]))
        elif e.kind in ('acquire', 'release', 'record', 'deadlock', 'badrelease', 'walk'):
            out.append('%s at %s:%s' % (e.kind, e.loc[0], e.loc[1]))
    return out[-limit:]


def known(prop):
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            line = line.strip()
            if line.startswith('open: property=%s ' % prop):
                rest = line[len('open: property=%s ' % prop):]
                if rest.startswith('key=['):
                    key, _, what = rest[5:].partition('] ')
                    out[key] = what
    return out


def run(prop, fn, tier, assumptions=(), explanation=''):
    t0 = time.time()
    ctx = Ctx(prop, tier)
    status = 0
    err = None
    try:
        fn(ctx)
    except AnalysisError as e:
        err = '%s: %s' % (type(e).__name__, e)
    except Exception:
        err = 'internal error of the analysis: ' + traceback.format_exc()[-2500:]
    kn = known(prop)
    ev_dir = os.environ.get('POLOG_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(ev_dir, exist_ok=True)
    new = {k: v for k, v in ctx.fails.items() if k not in kn}
    cov = {
        'explanation': explanation or 'path-sensitive interprocedural abstract interpretation of the source; each obligation is one rule evaluated on one abstract path or construct',
        'obligations_evaluated': sum(r[0] for r in ctx.rules.values()),
        'rules': {k: {'obligations': v[0], 'constructs': sorted(map(str, v[1]))[:40]} for k, v in sorted(ctx.rules.items())},
        'abstract_paths': sum(w.paths for w in ctx.worlds),
        'client_programs': sum(w.clients for w in ctx.worlds),
        'functions_interpreted': len(set().union(*[w.it.analysed for w in ctx.worlds])) if ctx.worlds else 0,
        'functions': sorted({'%s:%s' % (m, q) for w in ctx.worlds for m, q in w.it.analysed if str(m).startswith('polog')}),
        'modules_parsed': max([len(w.it.asts) for w in ctx.worlds] or [0]),
        'branch_points': sum(w.it.branches for w in ctx.worlds),
        'transfer_steps': sum(w.it.steps for w in ctx.worlds),
        'paths_cut_at_bound': sum(w.it.cuts for w in ctx.worlds),
        'external_callees': sorted(set().union(*[set(w.it.opaque_seen) for w in ctx.worlds]))[:60] if ctx.worlds else [],
        'samples': ctx.samples,
    }
    if err:
        cov['error'] = err
    rec = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'coverage': cov,
           'assumptions': list(assumptions), 'wall_s': round(time.time() - t0, 3), 'violations': len(new)}
    with open(os.path.join(ev_dir, prop + '.json'), 'w', encoding='utf-8') as f:
        json.dump(rec, f, indent=1, ensure_ascii=False, default=repr)
    print('%s: %d obligations, %d paths, %d functions, %.1fs' % (prop, cov['obligations_evaluated'], cov['abstract_paths'], cov['functions_interpreted'], time.time() - t0))
    for k, v in ctx.fails.items():
        if k in kn:
            print('KNOWN-FINDING: property=%s %s [%s]' % (prop, kn[k], k))
    if new:
        rp = os.path.join(ev_dir, prop + '.violation.json')
        with open(rp, 'w', encoding='utf-8') as f:
            json.dump({'property': prop, 'violations': list(new.values()), 'error': err}, f, indent=1, ensure_ascii=False, default=repr)
        for v in list(new.values())[:20]:
            print('  %s: %s: %s' % (v['rule'], v['construct'], v['what']))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        status = 1
    if err:
        print('ERROR: %s' % err, file=sys.stderr)
        if not new:
            status = 2
    return status
