"""Jobs executed in worker processes: one symbolic path tree of a contract,
or a batch of concrete evaluations of it."""
import importlib
import json
import os
import random
import sys
import time
import traceback

TOOLS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def setup():
    if TOOLS not in sys.path:
        sys.path.append(TOOLS)
    import warnings
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    import logging
    logging.disable(logging.INFO)
    from . import patch
    patch.load()


def harness(name):
    m, f = name.split('.')
    return getattr(importlib.import_module('dv.contracts.' + m), f)


def run_sym(spec):
    """spec: dict(h, cfg, nT, prefix, opts) -> result dict"""
    setup()
    from . import ctx, engine, patch, shape, solver, terms as T
    import pickle
    t0 = time.time()
    h = harness(spec['h'])
    opts = spec.get('opts') or {}
    eng = engine.Engine(decide_ms=opts.get('decide_ms', 250),
                        prove_ms=opts.get('prove_ms', 8000))
    eng.max_secs = opts.get('max_secs', 240)
    eng.distribute = not opts.get('alone')
    res = dict(kind='sym', h=spec['h'], cfg=spec['cfg'], error=None,
               unsupported=None, pending=[], trace=[])
    seen = set()
    before = dict(solver.STATS)
    try:
        with shape.Reload(getattr(h, 'shapely', False)), \
                patch.Symbolic(), patch.Trace(seen):
            def go():
                c = ctx.SymCtx(eng, nT=spec.get('nT', 2),
                               pid=spec.get('pid'))
                shape.on(None)
                eng.policy = empties_policy
                h(c, **spec['cfg'])
            eng.run(go, spec.get('prefix') or [])
    except T.Unsupported as e:
        res['unsupported'] = '%s\n%s' % (e, traceback.format_exc()[-1500:])
    except (AttributeError, TypeError, KeyError, IndexError, ValueError,
            AssertionError, ImportError, RecursionError, ZeroDivisionError,
            NotImplementedError) as e:
        res['error'] = '%s: %s\n%s' % (type(e).__name__, e,
                                       traceback.format_exc()[-1500:])
    res.update(obligations=eng.obligations, pending=eng.distributed,
               paths=eng.paths, pruned=eng.pruned, forks=eng.forks,
               divs=[repr(d)[:120] for d in list(eng.divs.values())[:40]],
               ndivs=len(eng.divs), functions=sorted(seen),
               reach=eng.reach, notes=eng.notes,
               solver={k: solver.STATS[k] - before[k] for k in before},
               secs=time.time() - t0, policy=sorted(eng.policy_used))
    return res


def empties_policy(b, eng=None):
    """Scenario: no surface is empty over the whole batch (the sum of its
    lengths over all timesteps of the batch is at least the tolerance)."""
    from . import terms as T
    for r in b.args:
        if isinstance(r, T.R):
            for aid in r.atoms():
                a = T._ATOMS[aid]
                if a.kind == 'fn' and a.args[0] == 'rest':
                    # tol - (sum + rest) > 0 : "is empty"
                    c = [v for m, v in r.p.items()
                         if m == ((aid, 1),)]
                    return bool(c and c[0] > 0)
    return None


def run_num(spec):
    """evaluate a contract on concrete inputs: seeds or given values"""
    setup()
    from . import ctx
    t0 = time.time()
    h = harness(spec['h'])
    res = dict(kind='num', h=spec['h'], cfg=spec['cfg'], runs=0, rejected=0,
               checks=0, fails=[], nontrivial=set(), sample=None, error=None,
               digests=set())
    for seed in spec['seeds']:
        if time.time() - t0 > spec.get('max_secs', 60):
            break
        rng = random.Random('%s-%s' % (spec['h'], seed))
        cfg = {k: (rng.choice(v) if isinstance(v, list) else v)
               for k, v in spec['cfg'].items()}
        c = ctx.NumCtx(rng, spec.get('values'), spec.get('T'),
                       spec.get('pid'))
        try:
            h(c, **cfg)
            res['runs'] += 1
            res['checks'] += c.checks
            res['nontrivial'] |= c.nontrivial
            if c.checks:
                res['digests'].add(hash(json.dumps(
                    [_plain(cfg), _plain(c.inputs)], sort_keys=True)))
            if res['sample'] is None:
                res['sample'] = dict(h=spec['h'], cfg=_plain(cfg),
                                     inputs=_plain(c.inputs))
        except ctx.Reject:
            res['rejected'] += 1
        except ctx.Failed as e:
            res['runs'] += 1
            res['checks'] += c.checks
            res['fails'].append(dict(h=spec['h'], cfg=_plain(cfg), seed=seed,
                                     name=e.name, info=e.info,
                                     inputs=_plain(e.inputs)))
            if len(res['fails']) >= 3:
                break
        except Exception as e:           # the code under test raised
            if getattr(h, 'modular', False):
                res['rejected'] += 1
                res['error'] = '%s: %s' % (type(e).__name__, e)
                continue
            res['runs'] += 1
            res['fails'].append(dict(
                h=spec['h'], cfg=_plain(cfg), seed=seed,
                name='no exception on valid input',
                info='%s: %s\n%s' % (type(e).__name__, e,
                                     traceback.format_exc()[-1800:]),
                inputs=_plain(c.inputs)))
            if len(res['fails']) >= 3:
                break
    res['secs'] = time.time() - t0
    return res


def _plain(x):
    if isinstance(x, dict):
        return {str(k): _plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_plain(v) for v in x]
    if isinstance(x, (int, str, bool)) or x is None:
        return x
    try:
        return float(x)
    except Exception:
        return repr(x)


def run(spec):
    try:
        return (run_sym if spec['kind'] == 'sym' else run_num)(spec)
    except Exception as e:
        return dict(kind=spec['kind'], h=spec['h'], cfg=spec['cfg'],
                    crash='%s\n%s' % (e, traceback.format_exc()[-3000:]),
                    secs=0.)
