"""C18: parallel runs.

The classes a user may pass to the entry points (array, engine, irradiance
model, view-factor calculator, report builder) are replaced by recorders, so
that the worker processes report exactly what reached them."""
import copy
import time

import numpy as np

INPUTS = ['timestamps', 'dni', 'dhi', 'solar_zenith', 'solar_azimuth',
          'surface_tilt', 'surface_azimuth', 'albedo', 'ghi']


def plain(x):
    if x is None:
        return None
    if np.isscalar(x):
        return x
    return [y.item() if hasattr(y, 'item') else y for y in list(x)]


def instants(ts):
    import pandas as pd
    return [pd.Timestamp(x).isoformat() for x in ts]


class Array:
    def __init__(self, pars):
        self.pars = pars

    @classmethod
    def init_from_dict(cls, pars, **kw):
        return cls(dict(pars))


class Irradiance:
    def __init__(self, **kw):
        self.kw = kw


class VF:
    def __init__(self, **kw):
        self.kw = kw


class Engine:
    DELAYS = {}

    def __init__(self, pvarray, vf_calculator=None, irradiance_model=None,
                 fast_mode_pvrow_index=None, fast_mode_segment_index=None):
        self.a, self.v, self.i = pvarray, vf_calculator, irradiance_model
        self.row, self.seg = fast_mode_pvrow_index, fast_mode_segment_index

    def fit(self, timestamps, DNI, DHI, solar_zenith, solar_azimuth,
            surface_tilt, surface_azimuth, albedo, ghi=None):
        self.rec = dict(
            timestamps=instants(timestamps), dni=plain(DNI), dhi=plain(DHI),
            solar_zenith=plain(solar_zenith),
            solar_azimuth=plain(solar_azimuth),
            surface_tilt=plain(surface_tilt),
            surface_azimuth=plain(surface_azimuth), albedo=plain(albedo),
            ghi=plain(ghi))

    def _run(self, mode, fn):
        self.rec.update(mode=mode, row=self.row, seg=self.seg,
                        pars=self.a.pars, irr=self.i.kw, vf=self.v.kw,
                        classes=[type(self.a).__name__,
                                 type(self.i).__name__,
                                 type(self.v).__name__])
        d = self.a.pars.get('delays')
        if d:
            time.sleep(d[int((self.rec['dni'] or [0])[0] * 1000) % len(d)])
        return fn(self)

    def run_full_mode(self, fn_build_report=None):
        return self._run('full', fn_build_report)

    def run_fast_mode(self, fn_build_report=None, pvrow_index=None,
                      segment_index=None):
        if pvrow_index is not None:
            self.row = pvrow_index
        if segment_index is not None:
            self.seg = segment_index
        return self._run('fast', fn_build_report)


class Builder:
    """a report builder with state of its own"""

    def __init__(self, tag):
        self.tag = tag

    def build(self, eng):
        return [dict(eng.rec, tag=self.tag)]

    def merge(self, reports):
        out = []
        for r in reports:
            out += r
        return dict(slices=out, merged_by=self.tag)


def inputs(c, T, ghi):
    import pandas as pd
    d = {k: np.array([c.num('%s[%d]' % (k, t), lo, hi) for t in range(T)])
         for k, lo, hi in (('dni', 1., 900.), ('dhi', 1., 400.),
                           ('solar_zenith', 5., 80.),
                           ('solar_azimuth', 100., 260.),
                           ('surface_tilt', 1., 60.),
                           ('surface_azimuth', 80., 280.),
                           ('albedo', .1, .9), ('ghi', 1., 1000.))}
    if not ghi:
        d['ghi'] = None
    d['timestamps'] = pd.date_range(
        c.choice('first', ['2019-06-01 06:00', '2019-12-31 22:50']),
        periods=T, freq='17min',
        tz=c.choice('zone', [None, None, 'US/Arizona', 'UTC']))
    kind = c.choice('kind', ['array', 'array', 'list', 'series'])
    for k, v in list(d.items()):
        if v is None or k == 'timestamps':
            continue
        if kind == 'list' and k != 'albedo':
            d[k] = [float(x) for x in v]
    tk = c.choice('timestamps as', ['index', 'datetimes', 'list'])
    if tk == 'datetimes':
        d['timestamps'] = d['timestamps'].to_pydatetime()
    elif tk == 'list':
        d['timestamps'] = list(d['timestamps'].to_pydatetime())
    return d


def options(c):
    row = c.choice('row', [None, 0, 0, 1, 2])
    seg = c.choice('segment', [None, 0, 1]) if row is not None else None
    o = dict(fast_mode_pvrow_index=row, fast_mode_segment_index=seg)
    o['irradiance_model_params'] = c.choice('irr', [
        None, {'rho_front': .02}, {'rho_back': .07, 'x': [1, 2]}])
    o['vf_calculator_params'] = c.choice('vfp', [
        None, {'n_aoi_integral_sections': 17}])
    return o


CLS = dict(cls_pvarray=Array, cls_engine=Engine, cls_irradiance=Irradiance,
           cls_vf=VF)


def check_record(c, r, o, pars, tag):
    row = o['fast_mode_pvrow_index']
    c.same('C18.full mode without a row, fast mode with one', r['mode'],
           'full' if row is None else 'fast')
    c.same('C18.row index reaches the engine', r['row'], row)
    c.same('C18.segment index reaches the engine', r['seg'],
           o['fast_mode_segment_index'])
    c.same('C18.array parameters reach the array', r['pars'], pars)
    c.same('C18.irradiance options reach the model', r['irr'],
           o['irradiance_model_params'] or {})
    c.same('C18.calculator options reach the calculator', r['vf'],
           o['vf_calculator_params'] or {})
    c.same('C18.classes are the ones asked for', r['classes'],
           ['Array', 'Irradiance', 'VF'])
    c.same('C18.report built by the builder', r['tag'], tag)


def parallel(c, most=4):
    """slices, options and merge order of a parallel run"""
    from pvfactors.run import run_parallel_engine
    T = c.choice('T', [4, 5, 7, 8, 11] if most < 9 else [12, 17, 23])
    n = c.choice('n', [10, 11, 12, 13]) if most > 9 else c.choice('n', list(range(1, most + 1)))
    d = inputs(c, T, c.choice('with ghi', [False, True]))
    albedo_scalar = c.choice('scalar albedo', [False, False, True])
    o = options(c)
    tag = c.choice('tag', ['a', 'b'])
    # later slices finish first, or in any order
    order = c.choice('delays', [0, 1, 2])
    pars = {'n_pvrows': 3, 'axis_azimuth': 0., 'cut': {0: {'front': 2}}}
    if order:
        if kind_of(d['dni']) == 'list':
            first = d['dni']
        else:
            first = list(d['dni'])
        delay = [0.] * 64
        starts = np.cumsum([0] + [len(x) for x in np.array_split(
            np.arange(T), n)])[:-1]
        for i, s in enumerate(starts):
            if s >= T:
                continue
            k = int(first[s] * 1000) % 64
            delay[k] = .04 * (n - i) if order == 1 else .04 * ((i * 7) % 3)
        pars['delays'] = delay
    args = dict(d)
    if albedo_scalar:
        args['albedo'] = c.choice('its value', [
            0., 1., .2, float(d['albedo'][0])])
    ghi = args.pop('ghi')
    keep = copy.deepcopy((args, o, pars))
    out = run_parallel_engine(Builder(tag), pars, n_processes=n, ghi=ghi,
                              **args, **o, **CLS)
    c.same('C18.merged by the builder', out['merged_by'], tag)
    sl = out['slices']
    for r in sl:
        check_record(c, r, o, pars, tag)
    want = {k: plain(v) for k, v in d.items()}
    want['timestamps'] = instants(d['timestamps'])
    if albedo_scalar:
        want['albedo'] = [args['albedo']] * T
    for k in INPUTS:
        if want[k] is None:
            c.same('C18.%s absent' % k, [r[k] for r in sl],
                   [None] * len(sl))
            continue
        got = []
        for r in sl:
            c.same('C18.slice of %s has the length of the others' % k,
                   len(r[k]), len(r['dni']))
            got += r[k]
        c.same('C18.slices of %s concatenate to the input' % k, got,
               want[k])
    c.le('C18.at most one slice per process', len(sl), n)
    for k in args:
        a, b = args[k], keep[0][k]
        c.same('C18.caller keeps %s' % k, plain(a), plain(b))
    c.same('C18.caller keeps the options', (o, pars), keep[1:])


def kind_of(x):
    return 'list' if isinstance(x, list) else 'array'


def serial(c):
    """the single-process entry point"""
    from pvfactors.run import run_timeseries_engine
    T = c.choice('T', [1, 4, 7])
    d = inputs(c, T, c.choice('with ghi', [False, True]))
    o = options(c)
    pars = {'n_pvrows': 3, 'axis_azimuth': 0.}
    tag = 's'
    args = dict(d)
    ghi = args.pop('ghi')
    out = run_timeseries_engine(Builder(tag).build, pars, ghi=ghi, **args,
                                **o, **CLS)
    c.same('C18.one report', len(out), 1)
    r = out[0]
    check_record(c, r, o, pars, tag)
    for k in INPUTS:
        want = plain(d[k])
        if k == 'timestamps':
            want = instants(d[k])
        c.same('C18.%s reaches the engine' % k, r[k], want)


class Real:
    """report of a real run: everything stored on the surfaces"""

    @staticmethod
    def build(arr):
        out = {}
        for x in arr.all_ts_surfaces:
            for k, v in x.params.items():
                if isinstance(v, np.ndarray) and v.ndim == 1:
                    out['%d %s' % (x.index, k)] = v.tolist()
        return out

    @staticmethod
    def merge(reports):
        out = {k: list(v) for k, v in reports[0].items()}
        for r in reports[1:]:
            for k in out:
                out[k] += r[k]
        return out


def real(c):
    """a real parallel run equals the serial one"""
    from pvfactors.run import run_parallel_engine, run_timeseries_engine
    T = c.choice('T', [3, 4, 5])
    d = inputs(c, T, c.choice('with ghi', [False, True]))
    for k in d:
        if d[k] is not None and k != 'timestamps':
            d[k] = np.asarray(d[k])
    pars = {'n_pvrows': 2, 'axis_azimuth': 0., 'gcr': .5, 'pvrow_width': 1.,
            'pvrow_height': 2., 'cut': {0: {'back': 2}}}
    row = c.choice('row', [None, 0, 1])
    o = dict(fast_mode_pvrow_index=row, irradiance_model_params={
        'rho_front': .02, 'rho_back': .05, 'module_transparency': .1})
    ghi = d.pop('ghi')
    a = run_timeseries_engine(Real.build, pars, ghi=ghi, **d, **o)
    n = c.choice('n', [1, 2, 3, 5, 7])
    b = run_parallel_engine(Real, pars, n_processes=n, ghi=ghi, **d, **o)
    c.same('C18.parallel: same results', sorted(a), sorted(b))
    for k in a:
        c.same('C18.parallel: length', len(a[k]), len(b[k]))
        for x, y in zip(a[k], b[k]):
            c.eq('C18.parallel: value', y, x, 1e-9)


def builder(c):
    """the example builder merges in order"""
    from pvfactors.report import ExampleReportBuilder as E
    c.steps(1)
    m = c.choice('reports', [1, 2, 3])
    reps = [{k: [float(100 * i + 10 * j + q) for q in range(j + i + 1)]
             for j, k in enumerate(('qinc_front', 'qinc_back', 'iso_front',
                                    'iso_back'))} for i in range(m)]
    want = {k: [x for r in reps for x in r[k]] for k in reps[0]}
    c.same('C18.example reports merge in order', E.merge(reps), want)
