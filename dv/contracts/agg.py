"""C16 (length-weighted aggregates) and C20 (snapshots)."""
import math

from .common import (site, direction, make_array, fit, cuts, weather,
                     make_engine, fit_engine)
from .geom import scheme

EPS = 1e-8


def ground_aggregates(g):
    """every aggregate of a ground with the surfaces it is made of"""
    out = []
    sh, il = [], []
    for el in g.shadow_elements:
        out.append(('shadow element', el, list(el.all_ts_surfaces)))
        sh += el.all_ts_surfaces
    for el in g.illum_elements:
        out.append(('lit element', el, list(el.all_ts_surfaces)))
        il += el.all_ts_surfaces
    out.append(('ground', g, sh + il))
    return out, sh, il


def parts(arr):
    """every aggregate of an array with the surfaces it is made of"""
    out, sh, il = ground_aggregates(arr.ts_ground)
    for row in arr.ts_pvrows:
        rs = []
        for nm, side in (('front', row.front), ('back', row.back)):
            ss = []
            for seg in side.list_segments:
                sg = []
                for col in (seg.illum, seg.shaded):
                    x = list(col.list_ts_surfaces)
                    out.append(('collection', col, x))
                    sg += x
                out.append(('segment', seg, sg))
                ss += sg
            out.append(('side', side, ss))
            rs += ss
        out.append(('row', row, rs))
    out.append(('array', arr, sh + il + [
        x for row in arr.ts_pvrows for side in (row.front, row.back)
        for seg in side.list_segments
        for col in (seg.illum, seg.shaded) for x in col.list_ts_surfaces]))
    return out


def stored(c, arr):
    """updating an aggregate reaches its surfaces and no other"""
    every = arr.all_ts_surfaces
    todo = [(k, o.update_params, ss) for k, o, ss in parts(arr)
            if hasattr(o, 'update_params')]
    g = arr.ts_ground
    todo.append(('ground collection', g.shaded.update_params,
                 [x for x in g.all_ts_surfaces if x.shaded]))
    todo.append(('ground collection', g.illum.update_params,
                 [x for x in g.all_ts_surfaces if not x.shaded]))
    todo.append(('shaded ground', g.update_shaded_params,
                 [x for x in g.all_ts_surfaces if x.shaded]))
    todo.append(('lit ground', g.update_illum_params,
                 [x for x in g.all_ts_surfaces if not x.shaded]))
    for i, (k, put, ss) in enumerate(todo):
        key = 'p%d' % i
        val = object()
        before = [dict(x.params) for x in every]
        d = {key: val, 'other': 2.}
        put(d)
        c.same('C16.dictionary is not kept', d, {key: val, 'other': 2.})
        ids = set(map(id, ss))
        for x, b in zip(every, before):
            if id(x) in ids:
                c.same('C16.storing on %s reaches its surfaces' % k,
                       x.params.get(key), val)
                b = dict(b, **{key: val, 'other': 2.})
            c.same('C16.storing on %s touches nothing else' % k,
                   x.params == b, True)
        for x in every:
            x.params.pop('other', None)


def weighted(c, n=3):
    """C16 on fitted arrays"""
    s = site(c, n, cut=cuts(c, n) if not c.sym else scheme(c, n))
    arr = fit(s, make_array(s, param_names=['q']))
    rng = (None, None) if c.sym else (-5., 1000.)
    for i, x in enumerate(arr.all_ts_surfaces):
        x.update_params({'q': c.ser('q%d' % i, *rng)})
    for t in s.times:
        means(c, [p for p in parts(arr) if not c.sym or p[0] in (
            'collection', 'segment', 'side', 'row')], t)
    stored(c, arr)


def ground(c, n=2):
    """C16 on any ground (ordered shadows and cut points, see C04)"""
    from .geom import any_ground
    g, ts, _ = any_ground(c, n, names=['q'])
    rng = (None, None) if c.sym else (-5., 1000.)
    for i, x in enumerate(g.all_ts_surfaces):
        x.update_params({'q': c.ser('q%d' % i, *rng)})
    for t in ts:
        means(c, ground_aggregates(g)[0], t)


def means(c, todo, t):
    if True:
        for k, o, ss in todo:
            ls = [c.at(x.length, t) for x in ss]
            vs = [c.at(x.get_param('q'), t) for x in ss]
            tot = sum(ls)
            ww = sum(l * v for l, v in zip(ls, vs))
            if hasattr(o, 'length'):
                c.eq('C16.length of %s is the sum' % k, c.at(o.length, t),
                     tot, keep='opaque')
            if hasattr(o, 'shaded_length'):
                c.eq('C16.shaded length of %s is the sum' % k,
                     c.at(o.shaded_length, t),
                     sum(l for l, x in zip(ls, ss) if x.shaded))
            if not hasattr(o, 'get_param_weighted'):
                continue
            c.eq('C16.weighted sum of %s' % k, c.at(o.get_param_ww('q'), t),
                 ww)
            if c.sym or tot > 1e-6:
                m = c.at(o.get_param_weighted('q'), t)
                if c.sym:
                    # (bounds of a mean: see mean())
                    c.eq('C16.weighted mean of %s' % k,
                         m * c.at(o.length, t), ww)
                    continue
                c.eq('C16.weighted mean of %s' % k, m, ww / tot)
                live = [v for v, l in zip(vs, ls) if l > 0]
                c.le('C16.mean above the smallest', min(live), m)
                c.le('C16.mean below the largest', m, max(live))


def mean(c, n=3):
    """C16: a length-weighted mean lies between the smallest and largest
    value of the surfaces that have a length, for any lengths"""
    from pvfactors.geometry.timeseries import (
        TsShadeCollection, TsSurface, TsLineCoords, TsPointCoords)
    ts = c.steps()
    M = c.M
    rng = (None, None) if c.sym else (-5., 1000.)
    z = 0. * c.ser('zero', 0., 1.)
    xs = []
    for i in range(n):
        x = TsSurface(TsLineCoords(
            TsPointCoords(z, z), TsPointCoords(c.ser(
                'l%d' % i, 0., None if c.sym else 3., special=(0.,)), z)))
        x.update_params({'q': c.ser('q%d' % i, *rng)})
        xs.append(x)
    lo, hi = c.ser('lo', *rng), c.ser('hi', *rng)
    col = TsShadeCollection(xs, False)
    for t in ts:
        ls = [c.at(x.length, t) for x in xs]
        vs = [c.at(x.get_param('q'), t) for x in xs]
        if c.sym:
            # any lower and upper bound of the values with a length
            a, b = c.at(lo, t), c.at(hi, t)
            c.fact(sum(ls) > 0)
            for l, v in zip(ls, vs):
                c.fact(l * (v - a) >= 0)
                c.fact(l * (b - v) >= 0)
        else:
            if sum(ls) < 1e-3:
                continue
            a = min(v for l, v in zip(ls, vs) if l > 0)
            b = max(v for l, v in zip(ls, vs) if l > 0)
        m = c.at(col.get_param_weighted('q'), t)
        c.le('C16.mean above the smallest', a, m)
        c.le('C16.mean below the largest', m, b)


def collection(c, n=3):
    """C16 for any collection of surfaces, and splitting one of them"""
    import numpy as np
    from pvfactors.geometry.timeseries import (
        TsShadeCollection, TsSurface, TsLineCoords, TsPointCoords)
    ts = c.steps()
    big = None if c.sym else 3.
    xs = [c.ser('x%d' % i, 0., big, special=(0.,)) for i in range(n + 1)]
    for i in range(n):
        xs[i + 1] = xs[i] + xs[i + 1]
    rng = (None, None) if c.sym else (-5., 1000.)
    qs = [c.ser('q%d' % i, *rng) for i in range(n)]
    k = c.choice('split', list(range(n)))
    f = c.ser('frac', 0., 1.)

    def surf(a, b, q):
        x = TsSurface(TsLineCoords(TsPointCoords(a, 2 * a),
                                   TsPointCoords(b, 2 * b)),
                      param_names=['q'])
        x.update_params({'q': q})
        return x
    one = [surf(xs[i], xs[i + 1], qs[i]) for i in range(n)]
    mid = xs[k] + f * (xs[k + 1] - xs[k])
    two = one[:k] + [surf(xs[k], mid, qs[k]), surf(mid, xs[k + 1], qs[k])] \
        + one[k + 1:]
    A = TsShadeCollection(one, False)
    B = TsShadeCollection(two, False)
    A.update_params({'z': 4.})
    c.same('C16.storing on a collection reaches its surfaces',
           [x.params.get('z') for x in one], [4.] * n)
    c.same('C16.storing on a collection touches nothing else',
           ['z' in x.params for x in two if x not in one],
           [False] * 2)
    for t in ts:
        ls = [c.at(x.length, t) for x in one]
        ww = sum(l * c.at(qs[i], t) for i, l in enumerate(ls))
        c.eq('C16.length of collection', c.at(A.length, t), sum(ls))
        c.eq('C16.weighted sum of collection', c.at(A.get_param_ww('q'), t),
             ww)
        if c.sym or sum(ls) > 1e-6:
            c.eq('C16.weighted mean of collection',
                 c.at(A.get_param_weighted('q'), t), ww / sum(ls))
            c.eq('C16.unchanged by splitting a surface',
                 c.at(B.get_param_weighted('q'), t), ww / sum(ls))


def pit_weighted(c, n=3, most=3):
    """C16 for point-in-time sides, segments and collections"""
    from pvfactors.geometry.base import (PVSurface, ShadeCollection,
                                         PVSegment, BaseSide)
    c.steps(1)
    rng = (None, None) if c.sym else (-5., 1000.)
    x = c.num('x0', None, None) if c.sym else c.num('x0', -5., 5.)
    slope = c.num('slope', None, None) if c.sym else c.num('slope', -1., 1.)
    segs, flat = [], []
    for i in range(n):
        cols = []
        for sh in (False, True):
            ss = []
            for j in range(c.choice('n%d%d' % (i, sh), list(range(most + 1)))):
                y = x + (c.num('l%d%d%d' % (i, sh, j), 0., None, strict=True)
                         if c.sym else c.num('l%d%d%d' % (i, sh, j), .01,
                                             3.))
                p = PVSurface([(x, slope * x), (y, slope * y)], shaded=sh,
                              index=len(flat), param_names=['q'])
                p.update_params({'q': c.num('q%d%d%d' % (i, sh, j), *rng)})
                ss.append(p)
                flat.append((i, sh, p))
                x = y
            cols.append(ShadeCollection(ss, shaded=sh, param_names=['q']))
        segs.append(PVSegment(cols[0], cols[1], index=i))
    side = BaseSide(segs)

    def check(what, o, ps):
        tot = sum(p.length for p in ps)
        c.eq('C16.length of %s' % what, o.length, tot)
        if hasattr(o, 'shaded_length'):
            c.eq('C16.shaded length of %s' % what, o.shaded_length,
                 sum(p.length for p in ps if p.shaded))
        ww = sum(p.length * p.get_param('q') for p in ps)
        c.eq('C16.weighted sum of %s' % what, o.get_param_ww('q'), ww)
        if ps:
            c.eq('C16.weighted mean of %s' % what,
                 o.get_param_weighted('q'), ww / tot)
        key = 'k' + what
        before = [dict(p.params) for _, _, p in flat]
        o.update_params({key: 7.})
        ids = set(map(id, ps))
        for (_, _, p), b in zip(flat, before):
            if id(p) in ids:
                b[key] = 7.
            c.same('C16.storing on %s' % what, p.params == b, True)
            p.params.pop(key, None)
        c.same('C16.indices of %s' % what, sorted(o.surface_indices),
               sorted(p.index for p in ps))
        c.same('C16.count of %s' % what, o.n_surfaces, len(ps))
    check('side', side, [p for _, _, p in flat])
    for i, sg in enumerate(segs):
        check('segment', sg, [p for k, _, p in flat if k == i])
        check('collection', sg.illum_collection,
              [p for k, sh, p in flat if k == i and not sh])
        check('collection', sg.shaded_collection,
              [p for k, sh, p in flat if k == i and sh])


pit_weighted.shapely = True


# ---------------------------------------------------------------- C20
def snap(c, what, got, want, t, params):
    """point-in-time surfaces `got` are the timeseries ones `want` at t"""
    live = [x for x in want if c.at(x.length, t) >= EPS]
    if any(abs(c.at(x.length, t) - EPS) < 1e-12 for x in want):
        return
    by = {}
    for p in got:
        c.ok('C20.%s: one snapshot per surface' % what, p.index not in by)
        by[p.index] = p
    c.same('C20.%s: exactly the non-degenerate surfaces' % what,
           sorted(by), sorted(x.index for x in live))
    for x in live:
        p = by[x.index]
        c.same('C20.%s: shading flag' % what, bool(p.shaded), bool(x.shaded))
        c.same('C20.%s: parameter names' % what, list(p.param_names or []),
               list(x.param_names or []))
        co = list(p.coords)
        for (u, v), b in zip(co, (x.b1, x.b2)):
            c.eq('C20.%s: coordinates' % what, u, c.at(b.x, t))
            c.eq('C20.%s: coordinates' % what, v, c.at(b.y, t))
        if x.n_vector is not None:
            for k in (0, 1):
                c.eq('C20.%s: normal' % what, p.n_vector[k],
                     c.at(x.n_vector[k], t))
        c.same('C20.%s: parameters' % what, sorted(p.params),
               sorted(x.params))
        for k, v in x.params.items():
            value(c, 'C20.%s: parameter value' % what, p.params[k], v, t)


def value(c, name, got, v, t):
    if v is None or isinstance(v, dict):
        c.same(name, got is v or got == v, True)
    elif hasattr(v, '__len__'):
        c.ok(name, not hasattr(got, '__len__'), repr(got))
        c.eq(name, got, v[t])
    else:
        c.eq(name, got, v)


def snapshots(c, n=3):
    """C20 on fitted arrays, all kinds of parameters, every index"""
    s = site(c, n, cut=cuts(c, n))
    names = ['q', 'scalar', 'none', 'dict']
    arr = fit(s, make_array(s, param_names=names))
    for i, x in enumerate(arr.all_ts_surfaces):
        x.update_params({'q': c.ser('q%d' % i, -5., 1000.),
                         'scalar': float(i), 'dict': {'i': i},
                         'extra': c.ser('e%d' % i, 0., 1.)})
    g = arr.ts_ground
    for t in s.times:
        for idx in (t, t - s.T):
            at(c, arr, t, idx)
        uniform(c, s, arr, t)


def at(c, arr, t, idx):
    for row in arr.ts_pvrows:
        pr = row.at(idx)
        c.same('C20.row index', pr.index, row.index)
        snap(c, 'row', pr.all_surfaces, row.all_ts_surfaces, t, None)
        (x1, y1), (x2, y2) = pr.original_linestring.coords
        f = row.full_pvrow_coords
        for a, b in ((x1, f.b1.x), (y1, f.b1.y), (x2, f.b2.x),
                     (y2, f.b2.y)):
            c.eq('C20.row line', a, c.at(b, t))
        snap(c, 'row', row.surfaces_at_idx(idx), row.all_ts_surfaces, t,
             None)
        for ps, ts in ((pr.front, row.front), (pr.back, row.back)):
            summary(c, 'side', ps, ts, t)
            snap(c, 'side', ts.at(idx).all_surfaces, ts.all_ts_surfaces, t,
                 None)
            snap(c, 'side', ts.surfaces_at_idx(idx), ts.all_ts_surfaces, t,
                 None)
            c.same('C20.segments', len(ps.list_segments),
                   len(ts.list_segments))
            for pseg, tseg in zip(ps.list_segments, ts.list_segments):
                c.same('C20.segment index', pseg.index, tseg.index)
                summary(c, 'segment', pseg, tseg, t)
                snap(c, 'segment', tseg.at(idx).all_surfaces,
                     tseg.all_ts_surfaces, t, None)
                for pc, tc in ((pseg.illum_collection, tseg.illum),
                               (pseg.shaded_collection, tseg.shaded)):
                    c.same('C20.collection flag', bool(pc.shaded),
                           bool(tc.shaded))
                    snap(c, 'collection', pc.list_surfaces,
                         tc.list_ts_surfaces, t, None)
    g = arr.ts_ground
    pg = g.at(idx, merge_if_flag_overlap=False)
    snap(c, 'ground', pg.all_surfaces, g.all_ts_surfaces, t, None)
    summary(c, 'ground', pg, g, t)
    sh = [x for x in g.all_ts_surfaces if x.shaded]
    il = [x for x in g.all_ts_surfaces if not x.shaded]
    for what, got, want in (
            ('shaded ground query', g.non_point_shaded_surfaces_at(idx), sh),
            ('lit ground query', g.non_point_illum_surfaces_at(idx), il),
            ('ground query', g.non_point_surfaces_at(idx), sh + il)):
        snap(c, what, got, want, t, None)
    if not any(abs(c.at(x.length, t) - EPS) < 1e-12 for x in sh + il):
        c.same('C20.ground query count', g.n_non_point_surfaces_at(idx),
               sum(c.at(x.length, t) >= EPS for x in sh + il))


def summary(c, what, p, x, t):
    c.eq('C20.%s: length' % what, p.length, c.at(x.length, t), 1e-6)
    c.eq('C20.%s: shaded length' % what, p.shaded_length,
         c.at(x.shaded_length, t), 1e-6)
    if c.at(x.length, t) > 1e-6:
        c.eq('C20.%s: weighted parameter' % what, p.get_param_weighted('q'),
             c.at(x.get_param_weighted('q'), t), 1e-6)


def uniform(c, s, arr, t):
    """merged and uncut ground snapshots cover the same ground"""
    g = arr.ts_ground
    for kw in (dict(), dict(merge_if_flag_overlap=True),
               dict(with_cut_points=False),
               dict(with_cut_points=False, merge_if_flag_overlap=False)):
        p = g.at(t, **kw)
        c.eq('C20.merged ground: length', p.length, c.at(g.length, t), 1e-6)
        c.eq('C20.merged ground: shaded length', p.shaded_length,
             c.at(g.shaded_length, t), 1e-6)
        got = []
        for q in p.all_surfaces:
            (a, _), (b, _) = q.coords
            got.append((min(a, b), max(a, b), bool(q.shaded)))
        got.sort()
        # same lit/shaded profile along the ground
        for x in g.all_ts_surfaces:
            L = c.at(x.length, t)
            if L > 1e-6:
                m = c.at(x.centroid.x, t)
                cover = [q for q in got if q[0] <= m <= q[1]]
                c.same('C20.merged ground: each point covered once',
                       len(cover), 1)
                c.same('C20.merged ground: shading', cover[0][2],
                       bool(x.shaded))


def after_run(c, n=3):
    """C20 after a full-mode run: results at the index"""
    s = site(c, n, cut=cuts(c, n), tilt_max=80)
    w = weather(c, s)
    eng = fit_engine(s, w, make_engine(c, s, make_array(s), opt={}))
    eng.run_full_mode()
    arr = eng.pvarray
    t = c.choice('t', list(range(s.T)))
    for row in arr.ts_pvrows:
        pr = row.at(t)
        snap(c, 'row', pr.all_surfaces, row.all_ts_surfaces, t, None)
        for ps, ts in ((pr.front, row.front), (pr.back, row.back)):
            c.eq('C20.side: weighted result', ps.get_param_weighted('qinc'),
                 c.at(ts.get_param_weighted('qinc'), t), 1e-6)
    g = arr.ts_ground
    pg = g.at(t, merge_if_flag_overlap=False)
    snap(c, 'ground', pg.all_surfaces, g.all_ts_surfaces, t, None)
    c.eq('C20.ground: weighted result', pg.get_param_weighted('qinc'),
         c.at(g.get_param_weighted('qinc'), t), 1e-6)
    # uncut snapshot carries the parameters of its zone
    pu = g.at(t, with_cut_points=False)
    want = {True: g.shaded_params, False: g.illum_params}
    for q in pu.all_surfaces:
        for k in ('rho', 'direct'):
            value(c, 'C20.uncut ground: parameter', q.get_param(k),
                  want[bool(q.shaded)][k], t)
