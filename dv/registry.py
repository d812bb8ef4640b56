"""Which contracts decide which property.

sym: contracts discharged by the verifier (every obligation must be proved)
num: the same or wider contracts evaluated on concrete inputs (falsifier,
     counter-model replay, and the bounded stand-in where nothing is proved)
"""

PROPS = {}


def prop(pid, sym=(), num=(), level=None, **kw):
    PROPS[pid] = dict(sym=list(sym), num=list(num),
                      level=level or ('proof' if sym else 'exploration'),
                      **kw)


def S(h, tier='quick', mode='all real inputs at this size', /, **cfg):
    return dict(h=h, cfg=cfg, tier=tier, mode=mode)


def N(h, count, /, **cfg):
    return dict(h=h, cfg=cfg, n=count)


prop('C01',
     sym=[S('geom.frame', n=2), S('geom.aoi', n=2)],
     num=[N('geom.frame', 300, n=[1, 2, 3]),
          N('geom.aoi', 300, n=[1, 2, 3])])

prop('C02',
     sym=[S('geom.sides', nf=1, nb=1), S('geom.sides', nf=2, nb=1),
          S('geom.sides', nf=3, nb=2),
          S('geom.sides', 'thorough', nf=5, nb=3)],
     num=[N('geom.sides', 300, nf=[1, 2, 3, 5], nb=[1, 2, 3]),
          N('geom.rows', 300, n=[1, 2, 3, 4])])

prop('C03',
     sym=[S('geom.shading', n=1), S('geom.shading', n=3)],
     num=[N('geom.shading', 600, n=[1, 2, 3, 5])])

prop('C04',
     sym=[S('geom.ground_fit', n=1), S('geom.ground_fit', n=2),
          S('geom.ground_fit', n=3), S('geom.ground_parts', n=1),
          S('geom.ground_parts', n=2), S('geom.ground_parts', n=3),
          S('geom.ground_fit', 'thorough', n=4),
          S('geom.ground_parts', 'thorough', n=4)],
     num=[N('geom.ground', 600, n=[1, 2, 3, 4]),
          N('geom.ground_parts', 300, n=[1, 2, 3, 4]),
          N('geom.ground_fit', 300, n=[1, 2, 3, 4])])
prop('C05', sym=[S('geom.indices', n=1), S('geom.indices', n=2),
                 S('geom.indices', n=3),
                 S('geom.indices', 'thorough', n=4)],
     num=[N('geom.indices', 400, n=[1, 2, 3, 4])])
VFS = [S('lem.lemmas'), S('vfs.strings', n=1),
       S('vfs.strings', n=2, cut=False), S('vfs.strings', n=3, cut=False),
       S('vfs.strings_range'),
       S('vfs.strings', 'thorough', n=2),
       S('vfs.strings', 'thorough', n=4, cut=False)]
prop('C06', sym=VFS + [S('vfs.closure_row'), S('vfs.closure_ground')],
     num=[N('vf.matrix', 500, n=[1, 2, 3, 4])])
prop('C07', sym=VFS + [S('vfs.obstruction')],
     num=[N('vf.matrix', 500, n=[1, 2, 3, 4]),
                 N('vf.additive', 300, n=[2, 3, 4])])
prop('C08', sym=[S('rad.equilibrium', n=1), S('rad.equilibrium', n=2),
                 S('rad.equilibrium', n=1, model='isotropic'),
                 S('rad.equilibrium', n=1, aoi=True),
                 S('rad.equilibrium', 'thorough', n=2, model='isotropic'),
                 S('rad.equilibrium', 'thorough', n=2, aoi=True)],
     num=[N('rad.equilibrium', 100, n=[1, 2, 3],
            model=['perez', 'isotropic'], aoi=[False, True]),
          N('rad.full', 300, n=[1, 2, 3],
                   model=['perez', 'isotropic'], faoi=[False, True])])
prop('C09', sym=[S('rad.selected', n=1), S('rad.selected', n=2),
                 S('rad.selected', n=1, model='isotropic'),
                 S('rad.element', n=1), S('rad.element', n=2),
                 S('rad.element', n=3),
                 S('rad.selected', 'thorough', n=3),
                 S('rad.element', 'thorough', n=4)],
     num=[N('rad.selected', 150, n=[1, 2, 3],
            model=['perez', 'isotropic']),
          N('rad.element', 150, n=[1, 2, 3, 4]),
          N('rad.fast', 400, n=[1, 2, 3, 4],
                   model=['perez', 'isotropic'], where=['run', 'engine'])])
prop('C10', sym=[S('lem.lemmas'), S('vfs.strings_range'),
                 S('vfs.closure_row'), S('vfs.fast', n=1), S('vfs.fast', n=2),
                 S('vfs.fast', n=3), S('vfs.fast', n=2, cut=2),
                 S('vfs.fast_totals'), S('vfs.fast', 'thorough', n=4)],
     num=[N('vf.fast_vs_full', 400, n=[1, 2, 3, 4])])
prop('C11', sym=[S('irr.model', n=1, model='isotropic'),
                 S('irr.model', n=1, model='perez', horizon=False),
                 S('irr.model', n=2, model='perez', horizon=False),
                 S('irr.model', 'thorough', n=2, model='isotropic'),
                 S('irr.model', 'thorough', n=3, model='perez',
                   horizon=False)],
     num=[N('irr.model', 150, n=[1, 2, 3], model=['perez', 'isotropic']),
          N('irr.components', 300, n=[1, 2, 3], model='perez'),
                 N('irr.components', 300, n=[1, 2, 3], model='isotropic')])
prop('C12', sym=[S('irr.band'), S('irr.backs', n=1), S('irr.backs', n=2),
                 S('irr.backs', 'thorough', n=3)],
     num=[N('irr.band', 300), N('irr.backs', 200, n=[1, 2, 3, 4]),
          N('irr.horizon', 400, n=[1, 2, 3])])
prop('C13', sym=[S('irr.disk', model=m, what=w)
                 for m in ('uniform_disk', 'gaussian')
                 for w in ('value', 'order')],
     num=[N('irr.circumsolar', 300, model='uniform_disk'),
                 N('irr.circumsolar', 300, model='gaussian')])
prop('C14', sym=[S('aoi.matrix', n=1), S('aoi.matrix', n=2),
                 S('aoi.matrix', n=1, N=5), S('aoi.unit', N=1),
                 S('aoi.unit', N=2), S('aoi.unit', N=6),
                 S('aoi.unit', N=7), S('aoi.unit', N=60),
                 S('aoi.matrix', n=3), S('aoi.matrix', 'thorough', n=2, N=3),
                 S('aoi.matrix', 'thorough', n=1, N=60)],
     num=[N('aoi.factors', 300, n=[1, 2, 3]),
                 N('aoi.reflectivity', 100)])
prop('C15', sym=[S('rad.equilibrium', n=1), S('rad.equilibrium', n=2),
                 S('rad.equilibrium', n=1, model='isotropic'),
                 S('rad.equilibrium', n=1, aoi=True),
                 S('rad.equilibrium', n=2, aoi=True),
                 S('rad.equilibrium', 'thorough', n=2, model='isotropic'),
                 S('irr.model', n=1, model='isotropic', losses=True),
                 S('irr.model', n=1, model='isotropic', losses=False),
                 S('irr.model', n=1, model='perez', losses=True,
                   horizon=False),
                 S('irr.model', 'thorough', n=2, model='perez', losses=True,
                   horizon=False)],
     num=[N('irr.model', 150, n=[1, 2, 3], model=['perez', 'isotropic'],
            losses=[False, True]),
          N('rad.full', 400, n=[1, 2, 3],
                   model=['perez', 'isotropic'], faoi=[True, True, False])])
prop('C16',
     sym=[S('agg.mean', n=1), S('agg.mean', n=2), S('agg.mean', n=3),
          S('agg.mean', 'thorough', n=5),
          S('agg.collection', n=1), S('agg.collection', n=2),
          S('agg.collection', n=3), S('agg.collection', 'thorough', n=5),
          S('agg.weighted', n=1), S('agg.weighted', n=2),
          S('agg.weighted', 'thorough', n=3),
          S('agg.ground', n=1), S('agg.ground', n=2), S('agg.ground', n=3),
          S('agg.pit_weighted', n=1), S('agg.pit_weighted', n=2, most=1),
          S('agg.pit_weighted', 'thorough', n=2, most=2)],
     num=[N('agg.mean', 300, n=[1, 2, 3, 5]),
          N('agg.ground', 200, n=[1, 2, 3]),
          N('agg.weighted', 300, n=[1, 2, 3]),
                 N('agg.collection', 300, n=[1, 2, 3, 5]),
                 N('agg.pit_weighted', 200, n=[1, 2, 3])])
B, A2 = 'rel.batch_engine', 'rel.alternate'
prop('C17', sym=[S('rel.batch_fit', n=1), S('rel.batch_fit', n=2),
                 S('rel.batch_fit', n=3), S('rel.batch_fit', n=2, T=4),
                 S(B, n=2), S(B, n=2, model='isotropic'), S(B, n=3),
                 S(B, n=1, run='full'), S(B, n=2, run='full'),
                 S(B, n=1, run='full', losses=True),
                 S(B, n=1, run='full', T=3),
                 S(B, n=1, run='fast'), S(B, n=2, run='fast'),
                 S(B, n=2, run='fast', model='isotropic'),
                 S('rel.scalar_inputs', n=1, run='full'),
                 S('rel.model_fit'), S('rel.model_fit', model='isotropic'),
                 S('pz.batch', n=1), S('pz.batch', n=2),
                 S('rel.scalar_inputs', n=2, run='fast',
                   model='isotropic'),
                 S(B, 'thorough', n=3, run='fast'),
                 S(B, 'thorough', n=2, run='full', losses=True),
                 S(B, 'thorough', n=2, run='full', model='isotropic'),
                 S('rel.scalar_inputs', 'thorough', n=2, run='full')],
     num=[N('rel.batch_fit', 100, n=[1, 2, 3]),
                 N('rel.model_fit', 60, model=['perez', 'isotropic']),
                 N('pz.batch', 120, n=[1, 2, 3, 6]),
                 N(B, 150, n=[1, 2], run=['full', 'fast'],
                   model=['perez', 'isotropic'], losses=[False, True]),
                 N('rel.scalar_inputs', 60, n=[1, 2], run=['full', 'fast'],
                   model=['perez', 'isotropic']),
                 N('hist.independent', 300, n=[1, 2, 3]),
                 N('hist.scalars', 120, n=[1, 2, 3])])
prop('C18', sym=[S('fold.parallel', n=n) for n in (1, 2, 3, 4, 8)] + [
    S('fold.parallel', 'thorough', n=n) for n in (5, 6, 7, 12, 16, 32)] + [
    S('fold.serial')] + [S('fold.builder', m=m) for m in (1, 2, 3, 5)],
     num=[N('fold.parallel', 100, n=[1, 2, 3, 7]), N('fold.serial', 50),
          N('par.serial', 100), N('par.builder', 60),
                 N('par.parallel', 150, most=[1, 2, 3, 5]),
                 N('par.parallel', 32, most=[12]),
                 N('par.real', 60)])
prop('C19', sym=[S('rel.refit_array', n=1), S('rel.refit_array', n=2),
                 S('rel.refit_array', n=3), S('rel.refit_engine', n=1),
                 S('rel.refit_engine', n=1, model='isotropic', losses=True),
                 S(A2, n=1, most=5), S('rel.separate', n=1),
                 S(A2, n=1, most=5, model='isotropic', losses=True),
                 S('rel.refit_array', 'thorough', n=4),
                 S('rel.separate', 'thorough', n=2),
                 S(A2, 'thorough', n=2, most=2)],
     num=[N('rel.refit_array', 60, n=[1, 2, 3]),
                 N('rel.refit_engine', 60, n=[1, 2],
                   model=['perez', 'isotropic'], losses=[False, True]),
                 N(A2, 16, n=[1, 2]), N('rel.separate', 24, n=[1, 2]),
                 N('hist.refit', 150, n=[1, 2, 3], steps=[2, 3, 4]),
                 N('hist.array_refit', 150, n=[1, 2, 3])])
P = 'pits.profile'
prop('C20', sym=[S('pits.row', nf=1, nb=1), S('pits.row', nf=1, nb=1, at=0),
                 S('pits.ground', n=1), S('pits.ground', n=1, at=0),
                 S('pits.ground', n=2, tiny='shadow'),
                 S(P, n=2, tiny='shadow'), S(P, n=2, tiny='lit'),
                 S(P, n=2, tiny='shadow', with_cuts=False),
                 S(P, n=2, tiny='shadow', with_cuts=False, merge=False),
                 S('pits.row', 'thorough', nf=2, nb=1),
                 S('pits.row', 'thorough', nf=1, nb=1, each=2),
                 S('pits.ground', 'thorough', n=2),
                 S('pits.ground', 'thorough', n=1, cuts=2),
                 S(P, 'thorough', n=2, cuts=2, tiny='shadow'),
                 S(P, 'thorough', n=3, tiny='shadow'),
                 S(P, 'thorough', n=2)],
     num=[N('pits.row', 60, nf=[1, 2, 3], nb=[1, 2], each=[1, 2]),
          N('pits.ground', 60, n=[1, 2, 3], cuts=[1, 2, 3]),
          N(P, 200, n=[1, 2, 3], cuts=[1, 2], merge=[False, True],
            with_cuts=[False, True], overlap=[False, True, True]),
          N('agg.snapshots', 250, n=[1, 2, 3]),
          N('agg.after_run', 150, n=[1, 2, 3])])
prop('C21', sym=[S('seg.difference'), S('seg.start', n=1),
                 S('seg.start', n=2), S('seg.start', n=3),
                 S('seg.cast', sizes=[2]),
                 S('seg.cast', sizes=[2], few=True, slivers=True),
                 S('seg.cast', sizes=[3], few=True),
                 S('seg.cast', sizes=[2, 1], few=True),
                 S('seg.cut', sizes=[2], few=True),
                 S('seg.cut', sizes=[2, 1], few=True, slivers=False),
                 S('seg.cut', sizes=[3], few=True, slivers=False),
                 S('seg.cast', 'thorough', sizes=[3]),
                 S('seg.cast', 'thorough', sizes=[3], few=True,
                   slivers=True),
                 S('seg.cast', 'thorough', sizes=[2, 2], few=True),
                 S('seg.cast', 'thorough', sizes=[4], few=True),
                 S('seg.cut', 'thorough', sizes=[2]),
                 S('seg.cut', 'thorough', sizes=[2, 1]),
                 S('seg.cut', 'thorough', sizes=[4], few=True)],
     num=[N('seg.difference', 400), N('seg.start', 100, n=[1, 2, 3]),
          N('seg.cast', 400, sizes=[[1], [2], [3], [2, 1], [1, 1], [4]],
            slivers=[False, True]),
          N('seg.cut', 400, sizes=[[1], [2], [3], [2, 1], [1, 1]]),
          N('pit.difference', 800), N('pit.separate', 30),
          N('pit.casts', 800, n=[1, 2, 3, 4], steps=[1, 2, 3, 5])])

# what each check establishes: (proved for all real inputs, at which sizes,
# only evaluated on samples)
ABOUT = {
 'C01': ('rotation sign and size, sun projection, normal.sun = cos AOI',
         'n=2 rows', 'n=1,3; floats'),
 'C02': ('row ends, equal contiguous segments, lit/shaded union, lowest '
         'part, lengths, flat rows, opposite normals',
         'segments front/back 1/1, 2/1, 3/2 (thorough 5/3)',
         'the whole array (geom.rows)'),
 'C03': ('shaded length equals ray tracing between neighbours; edge rows, '
         'single row, overlap flag', 'n=1,3 rows', 'n=2,5; floats'),
 'C04': ('shadow ends, clipping, overlap, tiling, zones and side queries',
         'n=1..3 (thorough 4)', 'float tolerances'),
 'C05': ('enumeration, counts, flags, parameters, vectors and matrices use '
         'the same index', 'n=1..3 (thorough 4), listed cut schemes',
         'other cut schemes'),
 'C06': ('reciprocity, zero blocks, degenerate rows, sky row, range and row '
         'sums through the closure lemmas', 'n=1..3 (thorough 4)',
         'really fitted arrays'),
 'C07': ('each entry equals crossed strings, obstruction test equals '
         'geometric blocking, additivity', 'n=1..3 (thorough 4)',
         'really fitted arrays'),
 'C08': ('radiosity equations, reported components, report call',
         'n=1,2, both irradiance models', 'n=3; numpy inverse'),
 'C09': ('all terms and view factor sums of the fast mode, selection',
         'n=1..3 (thorough 4)', 'through the entry points'),
 'C10': ('fast totals equal the sums of matrix entries',
         'n=1..3 (thorough 4)', 'really fitted arrays'),
 'C11': ('components, shaded fractions, reflectivities, references',
         'n=1,2 (thorough 3)', 'with the real pvlib'),
 'C12': ('band function, shading of back sides by the neighbour',
         'n=1,2 (thorough 3)', 'with the real pvlib'),
 'C13': ('range, ends, monotonicity, half coverage, disk formula, Gaussian '
         'integral', 'any real', 'floats'),
 'C14': ('section sums of each entry, obstruction, symmetry, reflectivity',
         'n=1..3; sections: any loss function at 1,2,5,6,7,60',
         'real loss functions, 300 sections'),
 'C15': ('absorbed components and qabs with and without AOI losses',
         'n=1,2', 'n=3'),
 'C16': ('length-weighted means at each level, timeseries and '
         'point-in-time, splitting, storing',
         'n=1..3 surfaces, rows (thorough 5)', 'floats'),
 'C17': ('a batch against each timestep alone: all results equal (product '
         'program), the sky luminance table included; scalars against series', 'n=1..3, batches of 2..4',
         'long batches'),
 'C18': ('slices, options, modes and merge order, inputs of any length, any '
         'completion order',
         'n_processes 1,2,3,4,8 (thorough ..32); all orders up to 4 '
         'unordered results', 'real pools, real engine'),
 'C19': ('results after any history of fits and runs equal those of fresh '
         'objects (product program, induction by equality of the complete '
         'state); inputs untouched; nothing shared',
         'n=1..3 (engine n=1, thorough 2)', 'longer histories'),
 'C20': ('snapshots of surfaces, collections, segments, sides, rows, ground '
         '(cut, uncut, merged) and ground queries, any coordinates, '
         'parameters and degenerate pattern',
         'rows of 1+1 (thorough 2+1) segments; grounds of 1,2 shadows',
         'fitted arrays and complete runs with the real shapely'),
 'C21': ('difference for all relative positions and directions; each cast '
         'and cut from any state of a side leads to the right state '
         '(induction over sequences)',
         'sides of 1..3 segments, 1..3 pieces (thorough 4); new sides of '
         '1..4 segments', 'sequences of operations on the real shapely'),
}
NOTES = {k: 'proved for all real inputs: %s. Sizes are enumerated: %s. Only '
            'evaluated on samples: %s.' % v for k, v in ABOUT.items()}
SIZES = 'sizes are enumerated, not proved by induction: '
GEO = ('view factor contracts take coordinates on the row lines and ground '
       'intervals on the visible side as C02, C04, C05 prove of fitted '
       'arrays; the composition is by reading')
PVLIB = ('pvlib.irradiance functions: any function of the arguments of that '
         'timestep (perez_diffuse_luminance, get_total_irradiance)')
EMPTY = ('is_empty (empty over the whole batch) is any value consistent with '
         'the examined timestep')
SHAPELY = ('shapely as in dv/shape.py: exact ends, lengths, distances and '
           'buffers along one line, collections are snapshots; the concrete '
           'evaluations use the real shapely')
SOLVE = 'np.linalg.solve/inv: A X = B for a regular A'
EXTRA = {
 'C06': [GEO, EMPTY], 'C07': [GEO, EMPTY], 'C10': [GEO], 'C14': [GEO, EMPTY],
 'C08': [PVLIB, SOLVE, 'the view factor matrix is arbitrary with a zero sky '
         'row (C06)'], 'C09': [PVLIB], 'C11': [PVLIB], 'C12': [PVLIB],
 'C15': [PVLIB, SOLVE], 'C17': [
     'pvlib (get_total_irradiance, perez, aoi_projection, airmass, extra '
     'radiation): any function of the arguments of that timestep; the '
     'projection changes sign with the orientation of the surface', SOLVE,
     EMPTY],
 'C19': [PVLIB, SOLVE, EMPTY], 'C16': [SHAPELY],
 'C13': ['math.erf: odd, increasing, limits +-1'],
 'C18': ['np.array_split: contiguous parts in order whose bounds depend on '
         'the length and the number of parts only; pool.map runs each item '
         'once and keeps the order; pickling keeps values'],
 'C20': [SHAPELY, 'surface lengths and element lengths differ from the '
         'tolerance; ground elements and surfaces tile the ground (C04)'],
 'C21': [SHAPELY, 'positions that do not coincide are at least 1e-6 apart '
         '(the tolerance of the code is 1e-8); touching shadows may leave '
         'shaded slivers of at most twice the tolerance'],
}
for _k, _p in PROPS.items():
    _p['assumptions'] = [SIZES + ABOUT[_k][1]] + EXTRA.get(_k, [])
