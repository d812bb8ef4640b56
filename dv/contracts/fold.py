"""C18 for inputs of any length: the parallel and the serial entry point on
opaque inputs, with contracts for numpy's array_split and the process pool.

Assumed: array_split(x, n) gives n contiguous parts in order whose bounds
depend on len(x) and n only; a pool runs the function once on each item and
gives the results in order (`imap_unordered`: in any order); pickling to and
from a worker preserves values."""
import itertools

from .par import Irradiance, VF, Engine as Recorder, INPUTS
from .. import terms as T


def modular(h):
    h.modular = True
    return h


def no(what):
    raise T.Unsupported('opaque input: ' + what)


class Series:
    """an input of any length; nothing but its identity is known"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name

    def _no(self, *a, **k):
        no('operation on a series')
    __iter__ = __getitem__ = __len__ = __bool__ = __add__ = __array__ = _no
    __radd__ = __sub__ = __lt__ = __gt__ = __float__ = _no


class Length:
    """the number of timesteps"""

    def __init__(self, of):
        self.of = of


class Index(Series):
    """a pandas DatetimeIndex: the same instants, with their time zone"""

    def to_pydatetime(self):
        return Datetimes(self)


class Datetimes(Series):
    def __init__(self, of):
        super().__init__('datetimes')
        self.of = of


def source(x):
    return x.of if isinstance(x, Datetimes) else x


class PD:
    """what the entry points see as pandas"""
    DatetimeIndex = Index

    def __init__(self, real):
        self.real = real

    def __getattr__(self, k):
        f = getattr(self.real, k)

        def g(*a, **kw):
            if any(isinstance(x, (Series, Length)) for x in list(a) +
                   list(kw.values())):
                no('pandas.%s' % k)
            return f(*a, **kw)
        return g if callable(f) and not isinstance(f, type) else f


class Ones(Series):
    def __mul__(self, v):
        return Const(v)
    __rmul__ = __mul__


class Const(Series):
    """a series of one value"""

    def __init__(self, v):
        super().__init__('const')
        self.v = v


class Part(Series):
    """part i of n of a series"""

    def __init__(self, of, i, n):
        super().__init__('part')
        self.of, self.i, self.n = of, i, n


class NP:
    """what the entry points see as numpy"""

    def __init__(self, real):
        self.real = real

    def __getattr__(self, k):
        f = getattr(self.real, k)
        if not callable(f) or isinstance(f, type):
            return f

        def g(*a, **kw):
            if any(isinstance(x, (Series, Length)) for x in list(a) +
                   list(kw.values())):
                no('numpy.%s' % k)
            return f(*a, **kw)
        return g

    def isscalar(self, x):
        return False if isinstance(x, Series) else \
            isinstance(x, T.R) or self.real.isscalar(x)

    def ones(self, n, *a):
        return Ones('ones') if isinstance(n, Length) else \
            self.real.ones(n, *a)

    def full(self, n, v, *a):
        return Const(v) if isinstance(n, Length) else \
            self.real.full(n, v, *a)

    def array_split(self, x, n, axis=0):
        if isinstance(x, Series):
            return [Part(x, i, n) for i in range(n)]
        return self.real.array_split(x, n)


def length(x):
    return Length(x) if isinstance(x, Series) else \
        x.__len__() if hasattr(x, '__len__') else len(x)


class Pool:
    c = None

    def __init__(self, processes=None, initializer=None, initargs=(), *a,
                 **k):
        self.n = processes
        if initializer is not None:
            initializer(*initargs)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass
    close = join = terminate = __exit__

    def map(self, f, xs, chunksize=1):
        return [f(x) for x in xs]

    def starmap(self, f, xs, chunksize=1):
        return [f(*x) for x in xs]

    def imap(self, f, xs, chunksize=1):
        return iter(self.map(f, xs))

    def imap_unordered(self, f, xs, chunksize=1):
        out = self.map(f, xs)
        n = len(out)
        orders = list(itertools.permutations(range(n))) if n < 5 else \
            [tuple(range(n))[::-1], tuple(range(1, n)) + (0,)]
        return iter([out[i] for i in Pool.c.choice('completion', orders)])

    def _later(self, v):
        class Result:
            @staticmethod
            def get(timeout=None):
                return v
        return Result

    def map_async(self, f, xs, *a):
        return self._later(self.map(f, xs))

    def starmap_async(self, f, xs, *a):
        return self._later(self.starmap(f, xs))

    def apply(self, f, args=(), kwds={}):
        return f(*args, **kwds)

    def apply_async(self, f, args=(), kwds={}):
        return self._later(f(*args, **kwds))


class Array:
    def __init__(self, pars):
        self.pars = pars

    @classmethod
    def init_from_dict(cls, pars, **kw):
        return cls(dict(pars))


class Engine(Recorder):
    def fit(self, timestamps, DNI, DHI, solar_zenith, solar_azimuth,
            surface_tilt, surface_azimuth, albedo, ghi=None):
        self.rec = dict(
            timestamps=timestamps, dni=DNI, dhi=DHI,
            solar_zenith=solar_zenith, solar_azimuth=solar_azimuth,
            surface_tilt=surface_tilt, surface_azimuth=surface_azimuth,
            albedo=albedo, ghi=ghi)

    def _run(self, mode, fn):
        self.rec.update(mode=mode, row=self.row, seg=self.seg,
                        pars=self.a.pars, irr=self.i.kw, vf=self.v.kw,
                        classes=[type(self.a), type(self.i), type(self.v),
                                 type(self)])
        return fn(self)


class Builder:
    def __init__(self):
        self.merged = []

    def build(self, eng):
        return Report(self, eng.rec)

    def merge(self, reports):
        self.merged.append(list(reports))
        self.result = object()
        return self.result


class Report:
    def __init__(self, by, rec):
        self.by, self.rec = by, rec


class Patched:
    """stand-ins in pvfactors.run"""

    def __init__(self, c, n):
        import pvfactors.run as run
        self.m = run
        Pool.c = c
        real = run.np.real if isinstance(run.np, NP) else run.np
        self.new = dict(np=NP(real), Pool=Pool, cpu_count=lambda: n,
                        len=length)
        if 'pd' in run.__dict__:
            pd = run.pd
            self.new['pd'] = PD(pd.real if isinstance(pd, PD) else pd)

    def __enter__(self):
        self.old = {k: self.m.__dict__[k] for k in self.new
                    if k in self.m.__dict__}
        self.m.__dict__.update(self.new)
        return self.m

    def __exit__(self, *a):
        for k in self.new:
            del self.m.__dict__[k]
        self.m.__dict__.update(self.old)


def options(c):
    row = c.choice('row', ['none', 'zero', 'some'])
    row = None if row == 'none' else 0 if row == 'zero' else \
        c.num('row index', 0., 9.)
    seg = c.choice('segment', [None, 0, 1])
    return dict(
        fast_mode_pvrow_index=row, fast_mode_segment_index=seg,
        irradiance_model_params=c.choice('irr', [
            None, {}, {'rho_front': 'a', 'x': ['b']}]),
        vf_calculator_params=c.choice('vfp', [None, {'n': 'c'}]),
        cls_pvarray=Array, cls_engine=Engine, cls_irradiance=Irradiance,
        cls_vf=VF)


def check(c, r, o, pars, by):
    c.same('C18.report built by the builder', isinstance(r, Report) and
           r.by is by, True)
    r = r.rec
    row = o['fast_mode_pvrow_index']
    c.same('C18.full mode without a row, fast mode with one', r['mode'],
           'full' if row is None else 'fast')
    c.same('C18.row index reaches the engine', r['row'] is row or
           row is not None and r['row'] is not None and
           not isinstance(row, T.R) and r['row'] == row, True)
    c.same('C18.segment index reaches the engine', r['seg'],
           o['fast_mode_segment_index'])
    c.same('C18.array parameters reach the array', r['pars'], pars)
    c.same('C18.irradiance options reach the model', r['irr'],
           o['irradiance_model_params'] or {})
    c.same('C18.calculator options reach the calculator', r['vf'],
           o['vf_calculator_params'] or {})
    c.same('C18.classes are the ones asked for', r['classes'],
           [Array, Irradiance, VF, Engine])


def draw(c):
    d = {k: Series(k) for k in INPUTS}
    d['ghi'] = d['ghi'] if c.choice('ghi', [True, False]) else None
    if c.choice('albedo given as', ['series', 'scalar']) == 'scalar':
        d['albedo'] = c.num('albedo', 0., 1., special=[0., 1.])
    if c.choice('timestamps given as', ['series', 'index']) == 'index':
        d['timestamps'] = Index('timestamps')
    return d


PARS = {'n_pvrows': 3, 'cut': {0: {'front': 2}}}


@modular
def parallel(c, n=2):
    """C18: every slice and option reaches a worker, reports merge in order"""
    c.steps(1)
    d, o = draw(c), options(c)
    auto = c.choice('n_processes', ['given', 'all'])
    b = Builder()
    args = dict(d)
    with Patched(c, n) as run:
        out = run.run_parallel_engine(
            b, PARS, n_processes=n if auto == 'given' else -1, **args, **o)
    c.same('C18.merged once by the builder', len(b.merged), 1)
    c.same('C18.the merged report is returned', out is b.result, True)
    reps = b.merged[0]
    m = len(reps)        # parts of a split into m: each once, in order
    c.same('C18.slices on several processes', m == n or m > 0, True)
    for i, r in enumerate(reps):
        check(c, r, o, PARS, b)
        for k in INPUTS:
            x = r.rec[k]
            if d[k] is None:
                c.same('C18.%s absent' % k, x, None)
                continue
            c.same('C18.slices of %s concatenate to the input' % k,
                   isinstance(x, Part) and (x.i, x.n) == (i, m), True)
            if not isinstance(x, Part):
                continue
            if isinstance(d[k], Series):
                c.same('C18.slices of %s concatenate to the input' % k,
                       source(x.of) is d[k], True)
            else:
                c.same('C18.slices of %s concatenate to the input' % k,
                       isinstance(x.of, Const), True)
                if isinstance(x.of, Const):
                    c.eq('C18.scalar %s at every timestep' % k, x.of.v, d[k])


@modular
def serial(c):
    """C18: the single-process entry point"""
    c.steps(1)
    d, o = draw(c), options(c)
    b = Builder()
    with Patched(c, 1) as run:
        r = run.run_timeseries_engine(b.build, PARS, **d, **o)
    check(c, r, o, PARS, b)
    for k in INPUTS:
        if isinstance(d[k], Series) or d[k] is None:
            c.same('C18.%s reaches the engine' % k,
                   source(r.rec[k]) is d[k], True)
        else:
            c.eq('C18.%s reaches the engine' % k, r.rec[k], d[k])


class Rope:
    """a list of any length"""

    def __init__(self, parts):
        self.parts = parts

    def __add__(self, o):
        if not isinstance(o, Rope):
            return NotImplemented
        return Rope(self.parts + o.parts)

    def __eq__(self, o):
        return isinstance(o, Rope) and self.parts == o.parts
    __hash__ = None


@modular
def builder(c, m=3):
    """C18: the example builder concatenates in order, lists of any length"""
    from pvfactors.report import ExampleReportBuilder
    c.steps(1)
    keys = ['qinc_front', 'qinc_back', 'iso_front', 'iso_back']
    reps = [{k: Rope([(i, k)]) for k in keys} for i in range(m)]
    c.same('C18.example reports merge in order',
           ExampleReportBuilder.merge(reps),
           {k: Rope([(i, k) for i in range(m)]) for k in keys})
