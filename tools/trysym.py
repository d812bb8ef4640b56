"""usage: trysym.py HARNESS [k=v ...] [-t]  -- discharges one symbolic
contract in parallel and prints what stays open (development aid)"""
import concurrent.futures as cf
import json
import multiprocessing as mp
import os
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dv import job


def main():
    cfg, opts = {}, {}
    nT = 2
    for a in sys.argv[2:]:
        k, v = a.split('=')
        try:
            v = json.loads(v)
        except ValueError:
            pass
        if k == 'nT':
            nT = v
        elif k in ('max_secs', 'prove_ms', 'decide_ms'):
            opts[k] = v
        else:
            cfg[k] = v
    t0 = time.time()
    job.setup()
    job.harness(sys.argv[1])
    ex = cf.ProcessPoolExecutor(8, mp_context=mp.get_context('fork'))
    spec = dict(kind='sym', h=sys.argv[1], cfg=cfg, nT=nT, prefix=[],
                opts=opts)
    pend = {ex.submit(job.run, spec): spec}
    tot = ok = paths = 0
    notes = {}
    opened, errs, slow, pol = {}, {}, [], set()
    while pend:
        done, _ = cf.wait(pend, return_when=cf.FIRST_COMPLETED)
        for f in done:
            s = pend.pop(f)
            r = f.result()
            if r.get('crash'):
                print(r['crash'])
                continue
            pol |= set(r['policy'])
            for o in r['obligations']:
                tot += 1
                ok += o['status'] == 'proved'
                slow.append((o['secs'], o['name'], o['case'], o['backend']))
                if o['status'] != 'proved':
                    opened.setdefault((o['name'], o['status']), []).append(o)
            paths += r['paths']
            for k, v in r['notes'].items():
                a = notes.setdefault(k, [0, 0]); a[0] += v[0]; a[1] += v[1]
            for k in ('unsupported', 'error'):
                if r[k]:
                    errs.setdefault(r[k][-900:], 0)
                    errs[r[k][-900:]] += 1
            for p in r['pending']:
                s2 = dict(s, prefix=p)
                pend[ex.submit(job.run, s2)] = s2
    for (n, st), os_ in opened.items():
        print('OPEN', st, n, len(os_))
        for o in os_[:2]:
            print('    case', o['case'])
            print('    ', json.dumps(o['detail'], default=str)[:1500])
    for e, n in errs.items():
        print('ERR', n, e)
    print(notes or '')
    slow.sort(reverse=True)
    for x in slow[:6]:
        print('slow %.2f %s | %s | %s' % x)
    print('%d/%d paths %d, %.1f s %s' % (ok, tot, paths, time.time() - t0,
                                         pol))


main()
