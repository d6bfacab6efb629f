"""The properties, in one place: `tools/gen.py` writes properties.jsonl and MANIFEST.json from this."""

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=()):
    P.append(dict(
        id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mech],
                     **(dict(observe_at=list(observe)) if observe else {}))))


KDE, KER, UT, SAM, PLOT, INIT = ('kalepy/kde.py', 'kalepy/kernels.py', 'kalepy/utils.py', 'kalepy/sample.py',
                                 'kalepy/plot.py', 'kalepy/__init__.py')

prop('C01', 'Density is the weighted sum of normalized kernels',
     "The density of a KDE at any point is the sum over data points of their weight times the kernel centered there, with the kernel's "
     "covariance being the data covariance times the squared bandwidth, and the total weight as its integral (one, when asked for as "
     "probability). It is the same through every entry point: the KDE object, the top-level functions, any shape and container of the "
     "points, and any order or number of queries.",
     ['inputs', 'configurations', 'histories'],
     'all data sets x weightings x kernels x bandwidths x covariances x numbers of dimensions and points of the bounded alphabets; all points '
     'of a lattice covering and exceeding the data',
     'The tests compare a few random data sets to scipy (Gaussian only, one bandwidth) and other kernels to 1D histograms; sums over other '
     'kernels, dimensions, weights and covariances are never compared to the definition.',
     [KDE, KER, INIT],
     [('mixture evaluation', 'kernels.py: _evaluate_numba, Distribution.evaluate, Kernel.density'),
      ('normalization and whitening', 'kernels.py: Distribution subclasses, utils.matrix_invert'),
      ('entry points', 'kde.py: KDE.density; __init__.py: density, pdf')])
prop('C02', 'Kernels and KDEs integrate to one, with the right support and symmetry',
     "Every kernel, in any number of dimensions and for any covariance and bandwidth, is non-negative, integrates to one, depends only on "
     "the covariance-scaled distance from its center, does not increase with this distance, and (if finite) vanishes beyond its unit "
     "distance. So a KDE integrates to its total weight, or to one as a probability.",
     ['inputs', 'configurations'], 'all kernels x dimensions x covariances x bandwidths of the alphabets; directions and radii on a complete lattice',
     'The tests integrate some kernels over random data in one or two dimensions with few bandwidths; normalization constants in more '
     'dimensions and with non-diagonal matrices are not reached.',
     [KER], [('kernel shapes and normalization', 'kernels.py: Gaussian, Box_Asym, Parabola, Triweight evaluate/_evaluate'),
             ('unit-ball volumes', 'kernels.py: _nball_vol')])
prop('C03', 'Reflection mirrors the density about every boundary and conserves probability',
     "With reflecting boundaries in any of the dimensions, the density inside is the sum over all mirror images of the unbounded density "
     "(per dimension: itself, and mirrored about each given boundary), and is zero outside of the boundaries. For kernels narrower than the "
     "interval, the total is conserved. Boundaries given for one query override, for this query only, those given to the constructor; "
     "a boundary of True is just outside of the data, None or False is none.",
     ['inputs', 'configurations'], 'all boundary letters per dimension and all their pairs (and selected triples) x kernels x weights x data sets, all points of a lattice',
     'The tests reflect in one or two dimensions at a few fixed boundaries and check the total roughly; combinations of boundaries in several '
     'dimensions, overriding, and automatic boundaries of data of any sign are not settled by samples.',
     [KDE, KER, UT], [('mirror images', 'kernels.py: Kernel.density'), ('normalizing boundaries', 'utils/kde: _check_reflect')])
prop('C04', 'Restricting to parameters gives the density in those parameters alone',
     "Asking for the density in some of the parameters, in any order, gives the density of the projected data with the corresponding part of "
     "the covariance and bandwidth, in the order asked for, with the corresponding boundaries only. Grids, points and default points follow "
     "the same order.",
     ['inputs', 'configurations'], 'every ordered subset of the parameters in 1-4 dimensions x kernels x weights x bandwidths x boundaries x forms of points',
     'The tests use one or two fixed subsets in ascending order, with Gaussian kernels.',
     [KDE, KER], [('parameter selection', 'kde.py: KDE.density, KDE._guess_edges/points; kernels.py: Kernel.density, matrix sub-block')])
prop('C05', 'Grid evaluation matches points, and default points cover the distribution',
     "Evaluating on a grid gives, at the index of every combination of edges, exactly the density evaluated at this point, in the shape of "
     "the edges in the order of the dimensions, and returns the edges given. Without points, the points (or edges) used are returned with "
     "the densities, are finite, sorted, within given extrema and boundaries, have the number asked for, and contain (nearly) all of the probability.",
     ['inputs', 'configurations'], 'dims 1-3 x grid shapes x kernels x weights x boundaries x all forms of constructor points and extrema',
     'The tests evaluate one or two regular grids; jagged shapes, single edges, partial extrema and boundaries cannot be enumerated by examples.',
     [KDE, KER, UT], [('grids', 'kernels.py/kde.py: density(grid=True), utils.meshgrid'), ('default points', 'kde.py: _guess_edges, points, extrema; utils.parse_edges')])
prop('C06', 'Bandwidth, effective count and covariance follow the documented rules',
     "The effective number of points is the squared sum over the sum of squares of the weights; the bandwidth is by Scott's or Silverman's "
     "rule in the effective number and the dimensions, or as given (number, per dimension, or matrix), times the rescaling; the "
     "covariance is the weighted covariance of the data (or as given), and parameters are smoothed without covariances if a diagonal matrix is asked for. The kernel's matrix is "
     "the covariance times the squared bandwidth, element by element.",
     ['inputs', 'configurations'], 'the full product of the compatible letters: dims x sizes x weightings x bandwidth specifications x diagonal x rescaling x given covariance or neff',
     'The tests check a few bandwidths on random data, mostly unweighted and as equality with the same code.',
     [KDE, KER], [('bandwidth rules', 'kde.py: _compute_bandwidth, _set_bandwidth'), ('neff and covariance', 'kde.py: KDE.__init__; utils.cov_*')])
prop('C07', 'Equivalent descriptions of the same data give the same distribution',
     "Re-ordering the data points or parameters, shifting and scaling each parameter, multiplying all weights by a constant, replacing a point of integer "
     "weight by copies of it, splitting the weight of a point, adding points of zero weight, or giving the data in another container or type, leaves the "
     "distribution (correspondingly transformed) unchanged.",
     ['inputs', 'histories'], 'all orders of up to 4-5 points and 4 parameters x transformations x kernels x weights x dims; laws of draws over complete choice trees',
     'Relations between two runs are not tested at all; each test uses a single description of its data.',
     [KDE, KER], [('data handling', 'kde.py: KDE.__init__; kernels.py: Kernel')])
prop('C08', 'Resampled points are distributed as the KDE density, independently',
     "Points drawn from a KDE follow exactly the density of the KDE (with its kernel, weights, covariance, and boundaries): the data point is "
     "chosen by its weight, the displacement follows the kernel in all dimensions jointly, and boundaries fold the draws back inside. "
     "Different points of a sample are independent.",
     ['inputs', 'configurations', 'histories'], 'every outcome of the random choices of a draw (complete choice tree, continuous draws quantised) for kernels x weights x covariances x boundaries',
     'The tests compare histograms of random samples with loose statistical tolerances, mostly in one dimension and with Gaussian kernels; no '
     'finite sample can decide the law, and the existing ones missed wrong radial laws.',
     [KDE, KER], [('sampling', 'kernels.py: Kernel.resample, _resample_clear, _resample_reflect; Distribution.sample'), ('data point choice', 'kernels.py: np.random.choice with weights')])
prop('C09', 'Resampling returns exactly as many points as asked for, in bounds, and ends',
     "A resample has exactly the number of points asked for (or by default the number of data points), in the shape of the data, every one within the boundaries, "
     "however many draws are rejected on the way and however they are split in chunks; each returned point is one that was drawn and accepted, none is "
     "duplicated or lost. If no draws are ever accepted, it ends with an error instead of looping forever.",
     ['histories', 'fault_sequences', 'configurations'], 'every accept/reject history with a bounded number of rejections x sizes x dims x chunk sizes',
     'Rejections depend on random draws: the tests only see a few typical histories, never the rare ones (all rejected, last chunk rejected).',
     [KER], [('accept/reject loop', 'kernels.py: Kernel._resample_reflect'), ('chunks', 'kernels.py: Kernel.resample')])
prop('C10', 'Resampling with `keep` keeps exact data values and smooths only the others',
     "Parameters to keep have, in every sample, exactly the values of one data point (chosen by weight, the same for all kept parameters); the remaining "
     "parameters are this data point's plus a displacement distributed as the kernel of these parameters alone. Boundaries still hold.",
     ['inputs', 'configurations', 'histories'], 'every outcome of the random choices for every subset of kept parameters in every accepted form x kernels x weights x covariances x boundaries',
     'The tests keep one parameter in random samples and check that values are among the data; the distribution of the others and combinations with boundaries are not tested.',
     [KER], [('keep', 'kernels.py: Kernel.resample, _check_keep; matrix zeroing'), ('', 'kde.py: KDE.resample')])
prop('C11', 'Queries do not depend on, nor change, what was asked before',
     "The answer of any query (density, CDF, resample with the same random state, default points, grid samples) depends only on its arguments and "
     "on how the object was made, not on the queries before it, including rejected ones; other objects made from the same input are not affected, and no argument "
     "or input array is modified.",
     ['histories'], 'all sequences of operations up to depth 3-5 over 17 operations, on KDEs in 12 configurations, on pairs of KDEs sharing input, and on samplers',
     'Tests exercise each method on a fresh object; cached state (CDF grids, points, filled defaults) only breaks after particular sequences.',
     [KDE, KER, SAM], [('caches and defaults', 'kde.py: KDE._cdf_*, KDE.points, KDE.reflect; sample.py: Sample_Grid, Sample_Outliers attributes')])
prop('C12', 'The CDF is a distribution function and the integral of the PDF',
     "The CDF is non-decreasing in every parameter, is zero below and one above the range of the distribution, never leaves [0, 1], and between, equals "
     "the integral of the PDF up to each value (in all parameters jointly), within the accuracy of the grid used.",
     ['inputs', 'histories', 'configurations'], 'dims 1-3 x kernels x weights x data x boundaries x grids; all queries on a lattice inside, at the ends of and outside of the range, in several orders',
     'The tests compare a few CDFs of Gaussian KDEs at interior points; the ends, outside, reflecting boundaries and weighted data are not covered.',
     [KDE, UT], [('cumulative integral', 'kde.py: KDE.cdf; utils.cumtrapz')])
prop('C13', 'A KDE made from a histogram represents that histogram',
     "A KDE made from bin counts and edges has one data point at the center of each bin, weighted in proportion to its count (normalized to a density), and by default the (mean) width of the bins as "
     "bandwidth; so its density is the corresponding mixture, for uniform or non-uniform bins, in any number of dimensions and any memory layout.",
     ['inputs', 'configurations'], 'all histograms with small counts over few bins in 1-2 dims (selected in 3) x bins x bandwidths x kernels',
     'The tests make one 1D and one 2D KDE from histograms of random data with uniform bins.',
     [KDE], [('bin centers and weights', 'kde.py: KDE.from_hist')])
prop('C14', 'Samples of a gridded density follow its linear interpolation, bin by bin',
     "Samples of a density on a grid are in each bin with the probability of the bin's mass (given, or the average over its corners times its volume), exactly as many as asked for "
     "(or by default as the total mass), within the edges; in each bin they follow the linear interpolation of the density along each dimension (uniform "
     "if not interpolating). Different samples are independent.",
     ['inputs', 'configurations', 'histories'], 'every outcome of the random choices of one and two samples (complete choice trees, quantised) for edge sets x densities x masses x interpolation',
     'The tests look at the histograms of random samples with loose tolerances in few grids; distribution within bins is not tested.',
     [SAM], [('bin choice and in-bin inversion', 'sample.py: Sample_Grid.sample, _intrabin_linear_interp'), ('', 'utils.py: trapz_dens_to_mass')])
prop('C15', 'Outlier sampling conserves mass: weighted centroids inside, unit samples outside',
     "When sampling with a threshold, every bin with mass above it gives exactly one point, at the bin's center of mass with the bin's mass as weight; all other bins are "
     "sampled with unit weights, their expected number being their total mass, and distributed as in ordinary sampling. Together, weights add up to the "
     "total mass up to rounding to whole samples (or Poisson noise, if asked for).",
     ['inputs', 'configurations', 'histories'], 'edge sets x densities x masses x thresholds (none, some, all, ties) x every outcome of the random choices of up to 2-3 outliers, Poisson included',
     'The tests compare random samples of one smooth density with a loose tolerance.',
     [SAM], [('outliers', 'sample.py: Sample_Outliers, sample_outliers'), ('centroids', 'utils.py: centroids')])
prop('C16', 'Scalars sampled with a grid are interpolated at the sampled positions',
     "A scalar field sampled together with a grid has, for every sample, the value interpolated at the sampled position (exact for fields linear in the position within each "
     "bin), or the bin's value without interpolation. Sampling in proportion to another distribution (a portion) puts samples by that portion, with the ratio of the density to the portion as their weights (zero where the portion is zero), interpolated in the same way.",
     ['inputs', 'configurations', 'histories'], 'every outcome of the (quantised) random choices of one and several samples x edge sets x densities x scalar fields x interpolation',
     'The tests only check types and shapes of sampled scalars, never values at the sampled position.',
     [SAM], [('scalar interpolation', 'sample.py: Sample_Grid.sample, _intrabin_linear_interp'), ('', 'sample.py: sample_grid_proportional')])
prop('C17', 'Grid integrals, masses and cumulative integrals are consistent along any axes',
     "Integrals over a grid are the trapezoid rule along exactly the axes asked for, in any order and number; bin masses sum to the integral, and cumulative "
     "integrals start from zero, end with the integral, and grow by the mass of each bin.",
     ['inputs', 'configurations'], 'every grid shape up to 4-6 edges in 1-4 dims x families of edges x functions x every subset of the axes',
     'The tests integrate two or three grids along all axes.',
     [UT], [('grid integration', 'utils.py: trapz_nd, trapz_dens_to_mass, cumtrapz')])
prop('C18', 'Centroids of grid cells are centers of mass of the interpolated density',
     "The centroid of each cell of a grid lies within the cell and is the center of mass of the linear interpolation of the density between the cell's corners, along each dimension, for any "
     "densities and spacing.",
     ['inputs'], 'every combination of corner values of one cell in 1-3 dims x edge sets; every grid shape of 2-5 edges x densities',
     'The tests check a couple of cells in one and two dimensions.',
     [UT], [('centroids', 'utils.py: centroids, _cell_centroid')])
prop('C19', 'Weighted quantiles and histograms of any sample follow their definitions',
     "Weighted quantiles are non-decreasing in the fraction, within the range of the values, do not depend on the order of the data or the scale of the weights, and interpolate between sorted "
     "values each placed at the middle of its share of the weight; along an axis they act on each row alone. Weighted histograms count each value's weight in the one bin containing "
     "it (the last bin includes its right edge), and as density or probability integrate or sum to one.",
     ['inputs', 'configurations'], 'every ordered sample of 1-6 values with weightings, fractions, axes; every sample with every set of bins',
     'The tests compare to numpy for one or two random samples; ties, equal weights, single values and other axes are not enumerated.',
     [UT], [('quantiles', 'utils.py: quantiles'), ('histograms', 'utils.py: histogram')])
prop('C20', "Edges span the data or the given extrema, in each dimension's own terms",
     "Bin edges found automatically are finite, strictly increasing, evenly spaced, contain all of the data (or span exactly the given extrema, of which any part can be left open, to be "
     "filled in from the data of the same dimension), and their number follows the given number of bins, or lies within given bounds and does not depend on units; explicit edges are "
     "used as given, in each dimension.",
     ['inputs', 'configurations'], 'dims 1-3 x data sets x weightings x forms of edges x forms of extrema x padding, refinement and limits',
     'The tests exercise some forms of edges on random data.',
     [UT], [('edges', 'utils.py: parse_edges, _get_edges_1d'), ('extrema', 'utils.py: _parse_extrema, minmax')])
prop('C21', 'Extrema, spacing, midpoints, subdivision and bounds keep their contracts',
     "The extrema of any values contain all of them, extended by exactly the stretch asked for and combined with previous extrema and limits as documented; spacings span their input with the number or resolution "
     "asked for, in linear or logarithmic terms; midpoints lie halfway, and subdivision keeps every original edge and adds evenly spaced ones; selecting by bounds gives exactly the values inside (or outside).",
     ['inputs', 'configurations'], 'every sample of 1-5 values from a small alphabet with every combination of options; arrays of 1-3 dims along every axis',
     'The tests check single examples of some options; interactions (stretch with previous and limits) are not enumerated.',
     [UT], [('helpers', 'utils.py: minmax, spacing, midpoints, subdivide, bound_indices')])
prop('C26', 'Jagged-array helpers agree on shape and size for every nesting',
     "For nested sequences of any (jagged) shape, the helpers agree: the flattened length equals the number of leaves, flattening keeps all leaves in order, the shape reported has the actual lengths, "
     "and an input is called jagged exactly if its rows differ in shape.",
     ['inputs'], 'every nested list of depth 0-3 with 1-3 entries per level, with scalar, list, tuple and array leaves',
     'The tests check three or four examples.',
     [UT], [('jagged helpers', 'utils.py: jshape, flatlen, flatten, isjagged, really1d, really2d')])
prop('C22', 'What a plotting call draws does not depend on earlier calls',
     "What a plotting call draws is a function of its arguments, the figure it draws on and the data stored there: it is the same in a fresh process and after any sequence of "
     "other plotting calls, on other figures or the same one (up to the color and the limits, which follow what is already drawn). No call changes its arguments: option "
     "dictionaries, data, weights, quantiles, limits, nor the KDE given, nor defaults of later calls.",
     ['inputs', 'histories'], 'every sequence of two (and of a subset, three and more) of 19 plotting operations, each from a fresh process, sharing their arguments',
     'The tests make single plots and check that nothing raises; shared default arguments only show on the second call.',
     [PLOT], [('option dictionaries and defaults', 'plot.py: Corner.plot_kde, plot_data, hist, clean, plot, dist1d, dist2d')])
prop('C23', '1D plots draw the true histogram, density, quantiles and data',
     "In one dimension, the drawn histogram has the heights of the (weighted) counts, density or probability of the data in the edges; the drawn curve is the density of the KDE "
     "(as density or probability) where the KDE is not clipped; confidence bands and the median line are the weighted quantiles of the data; the carpet has "
     "points at data, a random subset without repetition where limited; rotating exchanges the axes of all of them. The components drawn are those asked for.",
     ['inputs', 'configurations'], 'data x weights x edges x every combination of the options of hist1d, confidence, carpet and dist1d, reading coordinates back from the drawn artists',
     'The tests only check that plotting does not raise.',
     [PLOT], [('1D drawing', 'plot.py: hist1d, draw_hist1d, confidence, carpet, dist1d')])
prop('C24', '2D plots draw the true histogram, contours, medians and data',
     "In two dimensions, the drawn histogram has the weighted counts of the data in each cell, masked only where asked for; contours enclose the given "
     "fractions of the mass of the histogram or density, each at one level, whatever the order of the quantiles; median lines are the weighted medians of each parameter; scattered points are "
     "the data. Given levels, widths and styles are those of the lines, and are marked in a given colorbar. With `params` all of these are of the two parameters asked for, in this order; the components drawn are those asked for.",
     ['inputs', 'configurations'], 'data x weights x edges x quantiles x options of hist2d, contour and dist2d x every ordered pair of parameters, read back from the drawn artists',
     'The tests only check that plotting does not raise.',
     [PLOT], [('2D drawing', 'plot.py: hist2d, draw_hist2d, contour, draw_contour2d, draw_scatter, dist2d, _prep_hist, _dfm_levels')])
prop('C25', 'Corner plots show the right parameters in every panel, within limits',
     "Each panel of a corner plot shows the parameters of its column and row (histogram, density, contours, points and medians as in the single panels), for every origin, rotation, number of "
     "parameters, form of data and weights; the diagonal shows each parameter. Limits contain everything plotted so far unless given, and all panels of the same parameter share them; "
     "targets and limits are drawn at their values in all panels of their parameter. Labels and ticks are on the outer panels; legends show the given handles and labels at the place asked for; a given figure is used, and no other is touched. "
     "Data of another number of parameters, and other requests which cannot be shown, are rejected and leave the figure as it was.",
     ['inputs', 'configurations', 'histories'], '1-4 parameters x origins x rotation x methods x data, KDE x weights; sequences of two and three plots x limits; all targets; figures, spacings and grids; all mismatched sizes',
     'The tests only check that plotting does not raise.',
     [PLOT], [('corner plots', 'plot.py: Corner, _figax, _parse_origin, _set_corner_axes_extrema, _get_corner_axes_extrema')])
prop('C27', 'Invalid arguments are rejected, valid ones accepted, and nothing changes',
     "Weights, boundaries, parameters, bandwidths, kernel names, grids, masses, scalars, origins, targets, limits and sizes are accepted exactly if they are valid as documented: their shape and "
     "number match the data (grid, panels), weights are finite, non-negative and not all zero, boundaries are in order, parameters exist. Everything else "
     "raises an error instead of silently giving a result for other data; and a rejected call leaves the object and the arguments as they were.",
     ['inputs', 'configurations'], 'every small sequence of weights, rows of boundaries, parameters, shapes of bandwidths and grids, and single-character edit of names',
     'The tests try a handful of bad arguments; a validation that accepts one wrong shape gives plausible numbers of the wrong data.',
     [KDE, KER, SAM, UT, PLOT], [('validation', 'kde.py: KDE.__init__, _check_reflect, _parse_bandwidth; kernels.py: get_distribution_class'),
                                 ('', 'sample.py: Sample_Grid.__init__; plot.py: Corner, _parse_origin; utils.py: quantiles')])
prop('C28', 'Covariance, cumulative sum and summary helpers match their definitions',
     "Removing the covariance of data (given, or their own) leaves data of unit covariance, and adding a covariance is its inverse; parameters to keep have no covariance with any other; cumulative sums over all "
     "axes are sums over all preceding entries, along one axis only along it; the inter-quartile range is of the weighted data; summary texts show the actual shape, first and last "
     "values, average, deviation and quantiles.",
     ['inputs', 'configurations'], 'covariances and data in 1-4 dims; every subset kept; every shape up to 3 entries in 1-4 dims along every axis; every small sample',
     'The tests check one or two examples of some of these; more than three dimensions and weighted forms are not covered.',
     [UT], [('covariance', 'utils.py: add_cov, rem_cov, cov_keep_vars'), ('sums and summaries', 'utils.py: cumsum, iqrange, stats, stats_str, array_str')])
prop('C29', 'Plots use the color, colormap and line style asked for, in every component',
    "Every component of a 1D plot (density, histogram, bands, median, carpet), the points and medians of a 2D plot, and those of all panels of a corner plot have the color given; histograms and "
    "contours in 2D use the colormap given. Without a color it is the middle of the given colormap, or else the next color of the axes' cycle (each plot without a color "
    "takes exactly one, plots with a color none), and a colormap not given runs from light to dark tones of the color. Lines have the style and width given.",
    ['inputs', 'configurations', 'histories'], 'all combinations of components x colors x colormaps x line styles; all methods of corner plots; all sequences of 3 plots with and without colors',
    'The tests only check that plotting does not raise; which data set is which in a figure is told by these colors alone.',
    [PLOT], [('colors', 'plot.py: _parse_color_cmap, _color_to_cmap, _cut_colormap, dist1d, dist2d, carpet, confidence, contour, Corner')])
