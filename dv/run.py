"""Decides one property: generates and discharges every obligation of its
contracts from /repo's working tree, evaluates the same contracts on concrete
inputs, replays counter-models, writes the evidence."""
import concurrent.futures as cf
import json
import multiprocessing as mp
import os
import sys
import time

from . import job

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAY = os.path.join(ROOT, 'evidence', 'replay')


def known_findings(pid):
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['findings']
            if k['property'] == pid and k.get('status') == 'known']


def is_known(fail, known):
    for k in known:
        if fail['name'] == k['obligation'] and all(
                fail['inputs'].get(a) == b or fail['cfg'].get(a) == b
                for a, b in k.get('where', {}).items()):
            return k
    return None


def values_of(ob, nT):
    """counter-model -> input values of the concrete replay"""
    v = {}
    for k, x in (ob['detail'].get('model') or {}).items():
        try:
            v[k] = float(x)
        except (TypeError, ValueError):
            pass
    v.update(ob.get('choices') or {})
    v['T'] = nT
    return v


def stable(ob):
    return ob['name'], ob['case']


class Runner:
    def __init__(self, pid, tier, seed):
        from . import registry
        self.pid, self.tier, self.seed = pid, tier, seed
        self.prop = registry.PROPS[pid]
        self.t0 = time.time()
        self.budget = self.prop.get('budget', {}).get(
            tier, 560 if tier == 'quick' else 1200)
        self.sym, self.num, self.crashes = [], [], []
        self.late, self.hurry = 0, False

    def specs(self):
        sym, num = [], []
        for e in self.prop['sym']:
            if e.get('tier', 'quick') == 'quick' or self.tier == 'thorough':
                sym.append(dict(kind='sym', pid=self.pid, h=e['h'], cfg=e.get('cfg', {}),
                                nT=e.get('nT', 2), prefix=[],
                                opts=e.get('opts', {}),
                                mode=e.get('mode')))
        for e in self.prop['num']:
            n = e['n'] * (1 if self.tier == 'quick' else 12)
            ch = e.get('chunk', max(1, min(50, n // 8)))
            base = self.seed * 1000003
            for i in range(0, n, ch):
                num.append(dict(kind='num', pid=self.pid, h=e['h'], cfg=e.get('cfg', {}),
                                seeds=[base + j for j in
                                       range(i, min(n, i + ch))],
                                max_secs=e.get('max_secs', 120)))
        return sym, num

    def left(self):
        return self.budget - (time.time() - self.t0)

    def execute(self):
        sym, num = self.specs()
        todo = [(s, 0) for s in sym] + [(s, 0) for s in num]
        pend = {}
        ex = self.ex
        for s, d in todo:
            pend[ex.submit(job.run, s)] = s
        while pend:
            done, _ = cf.wait(pend, timeout=max(1, self.left()),
                              return_when=cf.FIRST_COMPLETED)
            if self.left() <= 0 and (not done or self.hurry):
                self.late = len(pend)
                for f in pend:
                    f.cancel()
                return
            for f in done:
                s = pend.pop(f)
                try:
                    r = f.result()
                except Exception as e:
                    self.crashes.append('%s %s: %s' % (s['h'], s['cfg'], e))
                    continue
                if r.get('crash'):
                    self.crashes.append('%s %s: %s' % (s['h'], s['cfg'],
                                                       r['crash']))
                    continue
                r['spec'] = s
                if r['kind'] == 'sym':
                    self.sym.append(r)
                    for p in r['pending']:
                        s2 = dict(s, prefix=p)
                        pend[ex.submit(job.run, s2)] = s2
                else:
                    self.num.append(r)
                    known = known_findings(self.pid)
                    if any(not is_known(f, known) for f in r['fails']):
                        # the verdict is known: finish soon
                        self.hurry = True
                        self.budget = min(self.budget,
                                          time.time() - self.t0 + 20)

    def again(self, open_obs):
        """obligations without an answer in time, with more time and fewer
        at once (a loaded machine must not look like a failed proof)"""
        groups = {}
        for r, o in open_obs:
            if o['status'] != 'unknown':
                return
            k = json.dumps([r['spec']['h'], r['spec']['cfg'], o['trace']],
                           sort_keys=True)
            groups.setdefault(k, (r, o['trace'], []))[2].append(o)
        if len(groups) > 300:
            return
        end = self.t0 + max(self.budget, 560) + 200
        futs = []
        for r, trace, os_ in groups.values():
            s = dict(r['spec'], prefix=trace, opts=dict(
                r['spec'].get('opts') or {}, prove_ms=40000, decide_ms=1000,
                alone=True, max_secs=max(30, self.left() + 100)))
            futs.append((self.ex.submit(job.run, s), os_))
        for f, os_ in futs:
            try:
                x = f.result(timeout=max(1, end - time.time()))
            except Exception as e:
                self.crashes.append('again: %s' % e)
                continue
            res = {}
            for o in x.get('obligations', ()):
                res.setdefault(stable(o), []).append(o['status'])
            for o in os_:
                if set(res.get(stable(o), ['unknown'])) == {'proved'}:
                    o['status'] = 'proved'
                    o['backend'] += ' (second attempt)'

    def replay(self, open_obs):
        """counter-models of undischarged obligations on the real code"""
        specs = []
        for r, ob in open_obs:
            if (ob['detail'] or {}).get('model'):
                s = r['spec']
                specs.append(dict(kind='num', pid=self.pid, h=s['h'], cfg=s['cfg'],
                                  seeds=list(range(6)),
                                  values=values_of(ob, s['nT']),
                                  max_secs=20))
        fails = []
        n = 0
        futs = [self.ex.submit(job.run, s) for s in specs[:64]]
        for f in futs:
            try:
                x = f.result(timeout=max(20, self.left()))
                n += x.get('runs', 0)
                fails += x.get('fails', [])
            except Exception as e:
                self.crashes.append('replay: %s' % e)
        # further search around the contracts concerned
        if not fails and open_obs and self.left() > 20:
            hs = {}
            for r, ob in open_obs:
                hs[(r['spec']['h'], json.dumps(r['spec']['cfg'],
                                               sort_keys=True))] = r['spec']
            futs = []
            for s in hs.values():
                for i in range(8):
                    futs.append(self.ex.submit(job.run, dict(
                        kind='num', pid=self.pid, h=s['h'], cfg=s['cfg'],
                        seeds=[self.seed * 7919 + 500000 + i * 1000 + j
                               for j in range(60)], max_secs=15)))
            for f in futs:
                try:
                    x = f.result(timeout=max(20, self.left()))
                    n += x.get('runs', 0)
                    fails += x.get('fails', [])
                except Exception as e:
                    self.crashes.append('replay: %s' % e)
        return fails, n

    def main(self):
        job.setup()
        import importlib
        for e in self.prop['sym'] + self.prop['num']:
            job.harness(e['h'])
        for m in ('ctx', 'engine', 'patch', 'solver', 'terms', 'sym'):
            importlib.import_module('dv.' + m)
        self.ex = cf.ProcessPoolExecutor(
            max_workers=int(os.environ.get('VERIF_JOBS', '8')),
            mp_context=mp.get_context('fork'))
        try:
            self.execute()
            return self.conclude()
        finally:
            procs = list((self.ex._processes or {}).values())
            self.ex.shutdown(wait=False, cancel_futures=True)
            for p in procs:
                p.terminate()

    def conclude(self):
        from .ctx import foreign
        known = known_findings(self.pid)
        obs = [(r, o) for r in self.sym for o in r['obligations']
               if not foreign(o['name'], self.pid)]
        open_obs = [(r, o) for r, o in obs if o['status'] != 'proved']
        fails = [f for r in self.num for f in r['fails']]
        hits = {}
        new = []
        for f in fails:
            k = is_known(f, known)
            if k:
                hits[k['id']] = k
            else:
                new.append(f)
        replayed = 0
        if not new and open_obs:
            more, replayed = self.replay(open_obs)
            new += [f for f in more if not is_known(f, known)]
            if not new:
                self.again(open_obs)
                open_obs = [(r, o) for r, o in obs
                            if o['status'] != 'proved']
        for k in known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        lines = []
        if new:
            new.sort(key=lambda f: len(json.dumps(f['inputs'])))
            lines.append(self.report(new[0], new, open_obs, True))
        elif open_obs:
            lines.append(self.report(None, [], open_obs, False))
        self.evidence(obs, open_obs, new, replayed)
        for ln in lines:
            print(ln)
        und = [r for r in self.sym if r['unsupported'] or r['error']]
        for r in und:
            print('undecided (bounded stand-in only): %s %s: %s' % (
                r['h'], r['cfg'],
                (r['unsupported'] or r['error']).strip().splitlines()[0]))
        if self.late:
            print('%d jobs %s' % (self.late, 'left out after the violation'
                                  if self.hurry else
                                  'undecided: over the time budget'))
        for c in self.crashes:
            print('job error:', c.strip().splitlines()[-1])
        if os.environ.get('VERIF_DEBUG'):
            for c in self.crashes:
                print(c)
            for r in und:
                print(r['unsupported'] or r['error'])
            for r, o in open_obs[:40]:
                print('OPEN', r['h'], r['cfg'], o['case'], '|', o['name'],
                      o['status'], o['backend'],
                      json.dumps(o['detail'])[:700])
            for f in new[:5]:
                print('FAIL', json.dumps(f)[:2500])
        runs = sum(r['runs'] for r in self.num)
        print('%s %s: %d obligations, %d discharged, %d concrete evaluations,'
              ' %.1f s' % (self.pid, self.tier, len(obs),
                           len(obs) - len(open_obs), runs,
                           time.time() - self.t0))
        if not lines and (not runs and self.prop['num'] or
                          not obs and self.prop['sym'] and not und
                          and not self.late):
            print('no evaluation and no obligation: the check is vacuous')
            return 2
        return 1 if lines else 0

    def report(self, fail, fails, open_obs, concrete):
        os.makedirs(REPLAY, exist_ok=True)
        path = os.path.join(REPLAY, '%s.json' % self.pid)
        doc = dict(property=self.pid, obligation=fail['name'] if fail else
                   open_obs[0][1]['name'],
                   failing_input=fail,
                   replay_cmd=None if not fail else
                   '%s/check --replay %s' % (ROOT, path),
                   other_failures=fails[1:4],
                   failed_obligations=[dict(
                       contract=r['h'], cfg=r['cfg'], case=o['case'],
                       name=o['name'], status=o['status'],
                       verifier=o['backend'], output=o['detail'])
                       for r, o in open_obs[:20]])
        with open(path, 'w') as f:
            json.dump(doc, f, indent=1, default=str)
        if fail:
            print('violated: %s -- %s' % (fail['name'],
                                          fail['info'].splitlines()[0]))
        else:
            print('undischarged: %s' % open_obs[0][1]['name'])
        return 'VIOLATION property=%s replay=%s%s' % (
            self.pid, path, '' if concrete else ' no-failing-input-found')

    def evidence(self, obs, open_obs, new, replayed):
        p = self.prop
        be, secs, per = {}, 0., {}
        for r, o in obs:
            if o['status'] == 'proved':
                be[o['backend']] = be.get(o['backend'], 0) + 1
            secs += o['secs']
            k = '%s%s' % (r['h'], json.dumps(r['cfg'], sort_keys=True))
            a = per.setdefault(k, dict(obligations=0, discharged=0, cases=0,
                                       mode=r['spec'].get('mode')))
            a['obligations'] += 1
            a['discharged'] += o['status'] == 'proved'
        for r in self.sym:
            k = '%s%s' % (r['h'], json.dumps(r['cfg'], sort_keys=True))
            if k in per:
                per[k]['cases'] += r['paths']
        funcs = sorted(set().union(*[set(r['functions']) for r in self.sym])
                       if self.sym else [])
        st = {}
        for r in self.sym:
            for k, v in r['solver'].items():
                st[k] = st.get(k, 0) + v
        runs = sum(r['runs'] for r in self.num)
        nt = set()
        for r in self.num:
            nt |= set(r['nontrivial'])
        unreached = [l for r in self.sym for l, how, n in r['reach']
                     if how not in ('sample', 'sat')]
        notes = {}
        for r in self.sym:
            for k, v in r['notes'].items():
                a = notes.setdefault(k, [0, 0])
                a[0] += v[0]
                a[1] += v[1]
        und = [dict(contract=r['h'], cfg=r['cfg'],
                    reason=(r['unsupported'] or r['error'])
                    .strip().splitlines()[0])
               for r in self.sym if r['unsupported'] or r['error']]
        cov = dict(
            obligations=len(obs), discharged=len(obs) - len(open_obs),
            checker_cmd='./check %s %s' % (self.pid, self.tier),
            trusted_base=TRUSTED + p.get('trusted', []),
            by_backend=be, per_contract=per,
            solver_time_s=round(sum(
                v for k, v in st.items() if k.endswith('_time')), 2),
            solver=st, obligation_time_s=round(secs, 2),
            functions_under_contract=funcs,
            paths=sum(r['paths'] for r in self.sym),
            infeasible_paths=sum(r['pruned'] for r in self.sym),
            paths_without_witness=sorted(set(unreached))[:20],
            paths_without_witness_count=len(unreached),
            divisors_assumed_nonzero=sorted(
                {d for r in self.sym for d in r['divs']})[:30],
            established={k: '%d of %d cases' % tuple(v)
                         for k, v in sorted(notes.items())},
            undecided=und, late_jobs=self.late,
            bounded_stand_in=dict(
                evaluations=runs,
                rejected=sum(r['rejected'] for r in self.num),
                checks=sum(r['checks'] for r in self.num),
                rule='each evaluation runs the real code on one sampled '
                     'input of a contract and evaluates every clause',
                replayed_counter_models=replayed,
                samples=[r['sample'] for r in self.num
                         if r['sample']][:2]),
            evaluations=runs, distinct_nontrivial=len(set().union(
                *[r['digests'] for r in self.num]) if self.num else ()),
            rule='sampled (seeded) inputs of a contract, special values and '
                 'coincidences forced in a quarter of the draws; counted '
                 'when the input satisfies the precondition, differs from '
                 'every other one and at least one clause was evaluated on '
                 'it',
            samples=[r['sample'] for r in self.num if r['sample']][:2])
        cov['bounded_stand_in'].pop('samples')
        doc = dict(property=self.pid, tier=self.tier, seed=self.seed,
                   level=p['level'], coverage=cov,
                   assumptions=ASSUME + p.get('assumptions', []) + sorted(
                       set().union(*[set(r['policy']) for r in self.sym]
                                   if self.sym else [])),
                   wall_s=round(time.time() - self.t0, 2),
                   violations=len(new) + (1 if open_obs and not new else 0))
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.pid + '.json'),
                  'w') as f:
            json.dump(doc, f, indent=1, default=str)


TRUSTED = [
    'dv (this directory): symbolic evaluation of the real CPython functions, '
    'normal form of real terms, obligation generator',
    'z3 and cvc5', 'CPython 3.12',
    'numpy/math semantics as modelled in dv/sym.py (cross-checked against '
    'numpy by the concrete evaluations)']
ASSUME = [
    'machine floating point is treated as real arithmetic in the proofs '
    '(the concrete evaluations run the real floats)',
    'proofs run one arbitrary timestep inside a batch of arbitrary others',
    'divisors listed in coverage.divisors_assumed_nonzero are not zero']


def replay_main(path):
    doc = json.load(open(path))
    f = doc.get('failing_input')
    if not f:
        print('no failing input recorded')
        return 2
    v = dict(f['inputs'])
    r = job.run_num(dict(kind='num', pid=doc['property'], h=f['h'], cfg=f['cfg'],
                         seeds=[f.get('seed', 0)], values=v))
    print(json.dumps(r['fails'], indent=1, default=str))
    return 1 if r['fails'] else 0


def main(argv):
    if argv and argv[0] == '--replay':
        return replay_main(argv[1])
    if argv and argv[0] == '--selftest':
        from . import selftest
        return selftest.main()
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    return Runner(pid, tier, seed).main()


if __name__ == '__main__':
    code = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(code)
