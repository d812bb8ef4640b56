"""C20 on any coordinates: point-in-time geometry built by the real code on a
contract of shapely (dv/shape.py)."""
from .agg import EPS, value


def shapely(h):
    h.shapely = True
    return h


def alive(c, x, t):
    """length reaches the tolerance (precondition: it is not exactly it)"""
    ln = c.at(x.length, t)
    if c.sym:
        c.fact(c.M.or_(ln < EPS, ln > EPS))
    else:
        c.fact(abs(ln - EPS) > 1e-12)
    return bool(ln > EPS)


def surfaces(c, n, names, normal, shaded, tag):
    """timeseries surfaces with any coordinates and parameters"""
    from pvfactors.geometry.timeseries import (
        TsSurface, TsLineCoords, TsPointCoords)
    out = []
    rng = (None, None) if c.sym else (-5., 5.)
    for i in range(n):
        nm = '%s%d' % (tag, i)
        x1, y1 = c.ser('ax' + nm, *rng), c.ser('ay' + nm, *rng)
        if c.sym:
            x2, y2 = c.ser('bx' + nm, *rng), c.ser('by' + nm, *rng)
        else:
            k = c.ser('sh' + nm, 0., 1., special=(0., 0., 1e-9, 1e-7))
            x2, y2 = x1 + k * c.ser('dx' + nm, *rng), \
                y1 + k * c.ser('dy' + nm, *rng)
        s = TsSurface(TsLineCoords(TsPointCoords(x1, y1),
                                   TsPointCoords(x2, y2)),
                      n_vector=normal, param_names=names, shaded=shaded,
                      index='i' + nm)
        fill(c, s, nm)
        out.append(s)
    return out


def fill(c, s, nm):
    rng = (None, None) if c.sym else (-5., 1000.)
    s.update_params({'q': c.ser('q' + nm, *rng), 'scalar': c.num(
        's' + nm, *rng), 'dict': {'k': c.ser('d' + nm, *rng)},
        'extra': c.ser('e' + nm, *rng)})


NAMES = ['q', 'scalar', 'none', 'dict']


def same_surface(c, what, p, x, t, names=True):
    c.same('C20.%s: shading flag' % what, bool(p.shaded), bool(x.shaded))
    if names:
        c.same('C20.%s: parameter names' % what, list(p.param_names or []),
               list(x.param_names or []))
    co = list(p.coords)
    c.same('C20.%s: two end points' % what, len(co), 2)
    for (u, v), b in zip(co, (x.b1, x.b2)):
        c.eq('C20.%s: coordinates' % what, u, c.at(b.x, t))
        c.eq('C20.%s: coordinates' % what, v, c.at(b.y, t))
    if x.n_vector is not None:
        for k in (0, 1):
            c.eq('C20.%s: normal' % what, p.n_vector[k],
                 c.at(x.n_vector[k], t))
    c.same('C20.%s: parameters' % what, sorted(p.params), sorted(x.params))
    for k, v in x.params.items():
        value(c, 'C20.%s: parameter value' % what, p.params[k], v, t)


def snap(c, what, got, want, live, t):
    by = {}
    for p in got:
        c.ok('C20.%s: one snapshot per surface' % what, p.index not in by)
        by[p.index] = p
    want = [x for x in want if live[id(x)]]
    c.same('C20.%s: exactly the non-degenerate surfaces' % what,
           sorted(by), sorted(x.index for x in want))
    for x in want:
        if x.index in by:
            same_surface(c, what, by[x.index], x, t)


def totals(c, what, p, x, ss, live, t):
    """lengths and weighted parameters of a snapshot and of the timeseries:
    equal but for the parts of the surfaces below the tolerance"""
    ls = [(c.at(s.length, t), live[id(s)], s) for s in ss]
    on = [(l, s) for l, v, s in ls if v]
    off = [(l, s) for l, v, s in ls if not v]
    c.eq('C20.%s: length' % what, p.length + sum(l for l, _ in off),
         c.at(x.length, t))
    if hasattr(p, 'shaded_length'):
        c.eq('C20.%s: shaded length' % what, p.shaded_length + sum(
            l for l, s in off if s.shaded), c.at(x.shaded_length, t))
    ww = sum(l * c.at(s.params['q'], t) for l, s in on)
    c.eq('C20.%s: weighted sum' % what, p.get_param_ww('q'), ww)
    c.eq('C20.%s: weighted sum' % what, p.get_param_ww('q') + sum(
        l * c.at(s.params['q'], t) for l, s in off),
        c.at(x.get_param_ww('q'), t))
    if on:
        c.eq('C20.%s: weighted parameter' % what, p.get_param_weighted('q'),
             ww / sum(l for l, _ in on))
        if not off:
            c.eq('C20.%s: weighted parameter' % what,
                 p.get_param_weighted('q'),
                 c.at(x.get_param_weighted('q'), t))


def index(c, t):
    """the index as asked for: from the start or from the end"""
    return c.choice('index', [t, t - c.T])


@shapely
def row(c, nf=1, nb=1, each=1, at=None):
    """C20: snapshot of a row of nf/nb segments on its sides, `each` lit and
    shaded surfaces per segment, any coordinates and parameters"""
    from pvfactors.geometry.pvrow import TsPVRow, TsSide, TsSegment
    from pvfactors.geometry.timeseries import (
        TsLineCoords, TsPointCoords, TsShadeCollection)
    if at is not None and c.sym:
        c.focus(at)
    ts = c.steps()
    rng = (None, None) if c.sym else (-2., 2.)
    nx, ny = c.ser('nx', *rng), c.ser('ny', *rng)
    normal = c.arr2([nx, ny])
    full = TsLineCoords(*[TsPointCoords(c.ser('f%dx' % k, *rng),
                                        c.ser('f%dy' % k, *rng))
                          for k in (1, 2)])
    sides = []
    for nm, n, nv in (('f', nf, normal), ('b', nb, -normal)):
        segs = []
        for i in range(n):
            cols = [TsShadeCollection(surfaces(
                c, each, NAMES, nv, sh, '%s%d%s' % (nm, i, 'ls'[sh])), sh)
                for sh in (False, True)]
            segs.append(TsSegment(full, cols[0], cols[1], n_vector=nv,
                                  index=i))
        sides.append(TsSide(segs, n_vector=nv))
    tr = TsPVRow(sides[0], sides[1], None, index=7, full_pvrow_coords=full)
    for t in ts:
        idx = index(c, t)
        live = {id(x): alive(c, x, t) for x in tr.all_ts_surfaces}
        pr = tr.at(idx)
        c.same('C20.row index', pr.index, 7)
        for (u, v), b in zip(pr.original_linestring.coords,
                             (full.b1, full.b2)):
            c.eq('C20.row line', u, c.at(b.x, t))
            c.eq('C20.row line', v, c.at(b.y, t))
        snap(c, 'row', pr.all_surfaces, tr.all_ts_surfaces, live, t)
        snap(c, 'row', tr.surfaces_at_idx(idx), tr.all_ts_surfaces, live, t)
        c.eq('C20.row: length', pr.length, sum(
            c.at(x.length, t) for x in tr.all_ts_surfaces if live[id(x)]))
        for ps, tsd in ((pr.front, tr.front), (pr.back, tr.back)):
            totals(c, 'side', ps, tsd, tsd.all_ts_surfaces, live, t)
            snap(c, 'side', ps.all_surfaces, tsd.all_ts_surfaces, live, t)
            snap(c, 'side', tsd.surfaces_at_idx(idx), tsd.all_ts_surfaces,
                 live, t)
            c.same('C20.segments', len(ps.list_segments),
                   len(tsd.list_segments))
            for pg, tg in zip(ps.list_segments, tsd.list_segments):
                c.same('C20.segment index', pg.index, tg.index)
                totals(c, 'segment', pg, tg, tg.all_ts_surfaces, live, t)
                snap(c, 'segment', tg.surfaces_at_idx(idx),
                     tg.all_ts_surfaces, live, t)
                for pc, tc in ((pg.illum_collection, tg.illum),
                               (pg.shaded_collection, tg.shaded)):
                    c.same('C20.collection flag', bool(pc.shaded),
                           bool(tc.shaded))
                    snap(c, 'collection', pc.list_surfaces,
                         tc.list_ts_surfaces, live, t)
                    totals(c, 'collection', pc, tc, tc.list_ts_surfaces,
                           live, t)


def chain(c, n, cuts, overlap, tiny='all'):
    """a ground with n shadows and any number of cut points, its elements
    and surfaces one after the other from left to right, of any lengths
    (what C04 proves of every ground)"""
    from pvfactors.geometry.pvground import TsGround
    from pvfactors.geometry.timeseries import TsLineCoords, TsPointCoords
    zero = 0. * c.ser('zero', 0., 1.)
    y = c.ser('y', None, None) if c.sym else c.ser('y', -2., 2.)
    P = lambda x: TsPointCoords(x, y)
    fl = None
    if overlap:
        fl = c.ser('flag', 0., 1.) > .5
    g = TsGround.from_ordered_shadows_coords(
        c.arr2([[[zero, y], [zero + 1., y]] for _ in range(n)]),
        flag_overlap=fl, param_names=NAMES, y_ground=0.,
        cut_point_coords=[P(zero) for _ in range(cuts)])
    x = c.ser('x0', None, None) if c.sym else c.ser('x0', -100., -50.)
    els = []
    for k in range(n):
        els += [g.illum_elements[k], g.shadow_elements[k]]
    els.append(g.illum_elements[n])
    order = []
    for i, el in enumerate(els):
        a = x
        for j, s in enumerate(el.all_ts_surfaces):
            nm = '%d_%d' % (i, j)
            d = c.ser('l' + nm, 0., None) if c.sym else \
                c.ser('l' + nm, 0., 9., special=(0., 0., 2e-9, 7e-9))
            if tiny != 'all' and (tiny == 'shadow') != el.shaded:
                # (only some of the surfaces may be below the tolerance)
                if c.sym:
                    c.fact(c.M.or_(c.at(d, c.t0) > EPS, False if fl is None
                                   or el.shaded or i in (0, len(els) - 1)
                                   else c.at(fl, c.t0)))
                else:
                    d = d + 1e-3
            if fl is not None and not el.shaded and 0 < i < len(els) - 1:
                # overlapping shadows have no lit ground between them
                if c.sym:
                    c.fact(c.M.or_(c.M.not_(c.at(fl, c.t0)),
                                   c.at(d, c.t0) == 0))
                else:
                    d = d * ~fl
            s.coords = TsLineCoords(P(x), P(x + d))
            x = x + d
            s.index = 's' + nm
            fill(c, s, nm)
            order.append(s)
        el.coords = TsLineCoords(P(a), P(x))
    g.length, g.shaded_length
    return g, order, els, fl


def modular(h):
    h.modular = True
    return h


@modular
@shapely
def ground(c, n=1, cuts=1, tiny='all', at=None):
    """C20: snapshot of and queries on a ground"""
    if at is not None and c.sym:
        c.focus(at)
    ts = c.steps()
    g, order, els, _ = chain(c, n, cuts, False, tiny)
    c.same('C20.surfaces of the ground', sorted(map(id, order)),
           sorted(map(id, g.all_ts_surfaces)))
    for t in ts:
        idx = index(c, t)
        for el in els:          # (precondition: not exactly the tolerance)
            alive(c, el, t)
        live = {id(x): alive(c, x, t) for x in order}
        pg = g.at(idx, merge_if_flag_overlap=False)
        snap(c, 'ground', pg.all_surfaces, order, live, t)
        totals(c, 'ground', pg, g, order, live, t)
        sh = [x for x in order if x.shaded]
        il = [x for x in order if not x.shaded]
        for what, got, want in (
                ('shaded ground query', g.non_point_shaded_surfaces_at(idx),
                 sh),
                ('lit ground query', g.non_point_illum_surfaces_at(idx), il),
                ('ground query', g.non_point_surfaces_at(idx), order)):
            snap(c, what, got, want, live, t)
        c.same('C20.ground query count', g.n_non_point_surfaces_at(idx),
               sum(live[id(x)] for x in order))


@modular
@shapely
def profile(c, n=2, cuts=1, merge=True, with_cuts=True, overlap=True,
            tiny='all'):
    """C20: merged and uncut ground snapshots show the same lit and shaded
    ground"""
    ts = c.steps()
    g, order, els, fl = chain(c, n, cuts, overlap, tiny)
    for t in ts:
        idx = index(c, t)
        for el in els:
            alive(c, el, t)
        live = {id(x): alive(c, x, t) for x in order}
        pg = g.at(idx, merge_if_flag_overlap=merge, with_cut_points=with_cuts)
        got = []
        for p in pg.all_surfaces:
            (a, u), (b, v) = p.coords
            for w in (u, v):
                c.eq('C20.merged ground: on the ground', w,
                     c.at(order[0].coords.b1.y, t))
            got.append((a, b, bool(p.shaded)))
        tol = EPS * len(order)
        for flag in (True, False):
            a = sum(b - a for a, b, f in got if f == flag)
            b = sum(c.at(x.length, t) for x in order if x.shaded == flag)
            c.ok('C20.merged ground: %s length' % ('shaded' if flag else
                                                  'lit'),
                 c.M.and_(a - b <= tol, b - a <= tol))
        mine = [[] for _ in got]
        for x in order:
            if not live[id(x)]:
                continue
            lo, hi = c.at(x.b1.x, t), c.at(x.b2.x, t)
            cover = [k for k, (a, b, f) in enumerate(got)
                     if bool(a <= lo) and bool(hi <= b)]
            c.same('C20.merged ground: each surface covered once',
                   len(cover), 1)
            for k in cover:
                c.same('C20.merged ground: shading', got[k][2],
                       bool(x.shaded))
                mine[k].append(x)
        for k, xs in enumerate(mine):
            if not with_cuts:
                continue
            c.ok('C20.merged ground: no other piece', len(xs) > 0 or
                 bool(got[k][1] - got[k][0] <= tol))
