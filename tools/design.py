import json,os,re,glob,sys
sys.path[:0]=['/verif']
import importlib
OUT=[]
w=OUT.append
base=open('/verif/DESIGN.md').read()
base=base.split('## Properties')[0].rstrip()
w(base); w('')
WALL={'C01':18,'C02':15,'C03':18,'C04':10,'C05':40,'C06':17,'C07':40,'C08':80,'C09':14,'C10':60,'C11':48,'C12':24,'C13':15,'C14':56,'C15':30,'C16':29,'C17':7,'C18':3,'C19':6,'C20':15,'C21':24,'C22':45,'C23':70,'C24':58,'C25':95,'C26':2,'C27':17,'C28':4,'C29':30}
TXT={
'C01':("the whole input lattice, each query compared at every point with the plain weighted sum of closed-form kernels","an error in one kernel, dimension, size of data (numba loops, blocks of points) or entry point; tests compare a few histograms by eye-tolerance"),
'C02':("the radial profile of every kernel along every axis and diagonal, integrated by Gauss-Legendre in the radius; mixtures integrated between all their breakpoints","normalization in 4-5 dimensions, asymmetric matrices, and supports, which no test evaluates"),
'C03':("every combination of boundary letters per dimension against the sum over all mirror images","corner images and one-sided or open boundaries only matter for specific combinations"),
'C04':("every ordered subset of the parameters against the mixture with the sub-block of the matrix, and (Gaussian) against numerical marginalization","orders of parameters other than ascending, together with boundaries, grids or defaults"),
'C05':("every grid shape and default against point-wise evaluation; the mass within the default points","silent transposition of jagged grids; default points that clip the density"),
'C06':("the full product of data sizes, weights, bandwidth specifications, rescalings and options against the documented formulas","interactions of options (diagonal with rescaling, neff given with weights)"),
'C07':("all permutations, rescalings, replications and array forms of the same data: differential oracle, the code against itself; densities, CDFs, default points, and the law of the points drawn (both choice trees explored completely)","metamorphic relations need pairs of runs, that unit tests do not make"),
'C08':("the *complete tree of random choices* of resample(): every leaf with its exact probability gives the output law, compared with the density (windows, moments, characteristic functions), supports and data-point probabilities exactly","a law is not observable from a handful of samples: a wrong corner or a wrong kernel tail passes any KS test of a few hundred points"),
'C09':("every history of accepted and rejected draws up to a number of rejections, and the one which rejects everything; sizes x chunks","histories with many rejections at the end of chunks are improbable in tests"),
'C10':("choice trees as for C08 with every subset kept in every accepted form","joint law of kept and smoothed parameters"),
'C11':("all sequences of 3 (4) operations, compared with fresh objects in the same state of the generator; all pairs of objects sharing inputs","state leaking between queries (caches, overwritten arguments) needs specific histories"),
'C12':("all queries on a lattice, in three orders, against the integral of the model","tails, repeated and unordered queries, boundaries"),
'C13':("all small histograms against the mixture of the bin centers","non-uniform bins, orders of arrays"),
'C14':("complete choice tree of a grid sample: probability of every bin, moments of the position in each bin","law of a sampler, see C08"),
'C15':("choice trees with Poisson numbers; every threshold between, at, below and above the masses","conservation for every threshold and every random outcome"),
'C16':("choice trees; every sampled place is compared with the interpolation of the scalar at that place","scalars of the wrong bin look plausible"),
'C17':("every small grid shape and every subset of axes against loops over corners","axes in other orders, in 3-4 dimensions"),
'C18':("every combination of corner values of a cell against the exact center of mass","empty corners and edges, several dimensions"),
'C19':("every ordered small sample with every weighting against the definition","ties, zero weights, axes"),
'C20':("forms of edges x extrema x data x weights","partial, shared and infinite extrema"),
'C21':("every small sample with every combination of options against order statistics","combinations of limits, stretches and previous extrema"),
'C22':("all sequences of plotting operations, each in a fresh process, against the operation alone","defaults shared between calls"),
'C23':("all combinations of components and options; the artists on the axes are read back and compared with counts, densities and quantiles by definition","the tests only assert that nothing is raised"),
'C24':("as C23 in two dimensions; contours are re-computed along the lines of the grid, levels by their definition","as C23"),
'C25':("as C23/C24 for every panel; all sequences of two (three) plots for the limits; all combinations of targets; legends at every place","as C23; limits depend on histories"),
'C26':("every small nesting","deeper or irregular nestings"),
'C27':("every small argument against an independent validity predicate; object and arguments are compared before and after","almost all invalid arguments are untested; accepting one silently gives results for other data"),
'C28':("every small array and option","more than 3 dimensions, weights"),
'C29':("combinations of components, colors, colormaps, styles; all sequences of 3 plots with and without colors","as C23; color cycles depend on histories"),
}
w('## Properties\n')
w('Statements: `properties.jsonl` (generated by `tools/gen.py` from `tools/props.py`, together with `MANIFEST.json`).  All are decided by exhaustive enumeration within')
w('bounds; none is *not applicable*.  The bounds below are those of the checks themselves (they are repeated in every evidence file, with the numbers of')
w('states, transitions and traces actually covered).  Costs are wall times of the quick tier on 8 cores; the thorough tier takes 2-12 minutes.\n')
for ll in open('/verif/properties.jsonl'):
    p=json.loads(ll); ID=p['id']
    mod=importlib.import_module('mc.checks.'+ID.lower())
    w(f"### {ID} {p['title']}\n")
    w('* Decided by: '+TXT[ID][0]+'.')
    w('* Bounds (quick): '+re.sub(r'\s+',' ',mod.BOUNDS['quick'])+'.  Thorough: '+re.sub(r'\s+',' ',mod.BOUNDS['thorough'])+'.')
    w('* Oracle and assumptions: '+'; '.join(re.sub(r'\s+',' ',aa) for aa in mod.ASSUMPTIONS)+'.')
    w(f'* Beyond tests: {TXT[ID][1]}.  Cost: {WALL[ID]} s.\n')
w('''## How the machinery is kept bound to the code

There is no separate transition model to validate: the explored transitions are calls of the real code.  The reference models are oracles; each is validated
by agreeing with the real code on every transition (10^5 - 10^7 comparisons per check), and by the planted bugs below, which it must tell apart.  Random choices
are the real code's own calls of `numpy.random` (any function of it, in any order and number; `default_rng` too); code which takes randomness from somewhere else is
noticed (two runs with the same choices differ, or no choice is asked for) and noted in the evidence instead of judged wrongly.

## Staying quiet on refactored code

Checks use public functions only (apart from `resample`'s module constant for the number of tries, if present), and compare results to rounding tolerances.  They were run on a copy of the
repository in which some 60 functions were rewritten without changing behaviour (helpers extracted and inlined, loops turned into array expressions and back, other equivalent numpy calls,
`Generator`-style draws, early returns, renamed privates, broad `except` clauses): all are quiet.  That test led to a few corrections of the machinery (stopping a truncated history through `except:` clauses;
draws unknown to the controlled generator are noted instead of judged).

## Genuine defects found and repaired

All reported violations on the original tree turned out to be defects that could be repaired by small commits (`fix:` in /repo), listed in `KNOWN_FINDINGS.txt`, one line
each, with the property that found it.  No finding is left recorded but unrepaired.  The most consequential ones: samples of the Box, Parabola and Triweight kernels were
wrong in several dimensions; reflection lost the corner images, and resampling with reflection drew from another distribution than the density; gridded samples and their scalars
were wrong within bins; edges, extrema and limits of integers and negative values; weights ignored by several plots.

## Observed, but not asserted

Behaviour that looks questionable, where the documentation settles nothing, so that a property on it would be a guess:

* `sample_grid_proportional` ignores `mass`; `Sample_Grid` of zero total mass raises IndexError; samples come ordered by the mass of their bin.
* density at a scalar point has the shape of one point; reflection with infinite boundaries in several dimensions gives NaN (boundaries are to be `None`).
* `KDE` does not copy the dataset; non-finite data are accepted; a single data point without bandwidth gives NaN; duplicate `params` raise LinAlgError.
* Default extrema of Gaussian kernels are only about 1.5 sigma beyond the data for few points.
* `Box.evaluate` includes the surface, `inside()` excludes it; `bound_indices(outside=True)` in several dimensions is true only outside in all of them.
* `dist2d(mask_below=True)` masks below the lowest contour, though documented as the average weight of a point; sizes in carpets of very unequal weights are reversed below 1.
* Confidence bands of weighted data use another convention than unweighted ones; with tied values the order is undetermined.
* `corner(data, weights=...)` is rejected (`kwcorner` takes them); `plot_data(dist1d=dict(quantiles=...))` raises for the duplicate argument.
* Colormaps derived from gray are tinted; the legend of a single-panel corner plot is outside of it.

## Planted bugs

`seeded/<id>/`: each was written from the text of a property, breaks it, and passes the tests.  The check of its property reports it; all are caught.
Those marked (+) were missed at first, and led to stronger checks: smaller weights and offsets (b01, b08), boundaries at zero (b03), more chunks (b09), negative `keep` (b10),
other memory orders (b13), quantiles as arrays (b22-quantile-half), negative weights (b23-renorm), more edges than densities (b27-edges),
weighted logarithmic ranges (b28-iqr), kernel samples compared finely (b08-triweight-grid), boundaries at one (b03-true-equal), default points of permuted
parameters (b05-points-order), more data points than draws (b08-no-replace), tiny and huge units (b20-units), weights over decades (b22-log-inplace; the added case found a defect: carpets over carpets),
single scatter points, given levels, other numbers of parameters (b24-scatter-one, b24-levels-ignored, b25-axes-size; the added cases found three defects).

| planted bug | caught by | needs |
|---|---|---|''')
PLUS={'b01-neff-norm','b03-reflect-open','b08-weights-float32','b09-chunk-tries','b10-keep-negative','b13-hist-order','b22-quantile-half','b23-renorm','b23-carpet-weights','b27-edges','b28-iqr','b08-triweight-grid'}
try: PLUS |= set(open('/verif/tools/plus.txt').read().split())
except OSError: pass
SEED=os.environ.get('SEED','/verif/seeded')
for d in sorted(glob.glob(SEED+'/*/')):
    b=os.path.basename(d.rstrip('/')); m=json.load(open(d+'meta.json'))
    w(f"| {b}{' (+)' if b in PLUS else ''} | {m['property']} | {m['needs']} |")
w('')
open(os.environ.get('OUTMD','/verif/DESIGN.md'),'w').write('\n'.join(OUT))
