#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": hook}})


prop("C01", "Conversion puts every particle at the grid site named by its ID",
     "Converting a Gadget-2 snapshot writes, for every particle, exactly its position (wrapped once into the box, in the requested units) and its velocity (times sqrt(scale factor), in the requested units) at the Lagrangian grid site its ID names (ID-1 = x + y*n + z*n*n). "
     "This is independent of how the particles are split over input files, of the order of files and of particles within them, of 32/64-bit IDs, of single/double precision blocks, and of how many particles there are. "
     "An iterated conversion treats every snapshot of its range on its own, and with no end given runs until the first snapshot that does not exist.",
     ["inputs", "configurations", "histories"],
     "for every n^3-particle snapshot, every partition and permutation of it over files, every ID width, block precision, unit factor and iteration range",
     "No test runs the converter at all; the quantifier is over permutations and partitions of arbitrary snapshots and over buffer-fill histories.",
     ["render/main/main.go", "render/io/io.go", "render/io/buffer.go"],
     [("particles are scattered by ID through a fixed-size buffer", "render/io/buffer.go Append/Flush"),
      ("files read one after another into shared buffers", "render/main/main.go createGrids"),
      ("iteration over snapshots", "render/main/main.go lGadget2Main")],
     [("xs, vs", "in-memory Lagrangian grid", "render/main/main.go createGrids"), ("idx", "fill level of the scatter buffer", "render/io/buffer.go")],
     ["sheet files written by -ConvertSnapshot"])

prop("C02", "Sheet segments tile the Lagrangian grid and share their faces",
     "A conversion with Cells=c of an n^3 snapshot writes exactly c^3 sheet files with distinct names whose indices are 0..c^3-1, and segment i covers the (n/c)^3 sites starting at (n/c)*(i mod c, (i/c) mod c, i/c^2) plus one extra layer on the upper side of each axis. "
     "That extra layer repeats, value for value, the first layer of the neighbouring segment, wrapping around periodically at the end of the grid. "
     "Every grid site is therefore found in exactly one segment's interior and neighbouring segments agree on every shared site, for positions and for velocities.",
     ["inputs", "configurations"], "for every grid width n, every Cells dividing n (also above 10) and every particle content",
     "No test runs the converter; agreement between files is a relation over all pairs of outputs.",
     ["render/main/main.go"], [("segment copy with wrap at the grid edge", "render/main/main.go copyToSegment"), ("file naming and index order", "render/main/main.go writeGrids")],
     [("shd.Idx", "running segment index", "render/main/main.go writeGrids")], ["sheet files and their headers"])

prop("C03", "Sheet headers describe the simulation and bound the segment's contents",
     "Every sheet file's header carries the snapshot's redshift, Omega_m, Omega_L and h, the particle mass and the box width in the requested units, and counts that are consistent with each other (particles per side, segment width, grid width = segment width + 1, grid count = grid width cubed, cells per side, segment index). "
     "Its position bounds (origin inside the box, plus width) contain every particle position of that segment under periodic wrapping whenever the segment spans less than half the box, and the position bounds are tight then. "
     "Its velocity bounds contain every velocity of the segment.",
     ["inputs", "configurations"], "for every snapshot content, unit factors, cells and every segment, including segments lying across the periodic boundary",
     "No test builds a header; containment is universally quantified over particles, segments and periodic images.",
     ["render/main/main.go", "render/io/io.go"], [("periodic bounding box grown particle by particle", "render/main/main.go boundingBox.Add"), ("header fields filled from the snapshot header and the units", "render/main/main.go createGrids, writeGrids")],
     [("Center/ToMin/ToMax", "the running periodic bounds", "render/main/main.go boundingBox")], ["SheetHeader of written files"])

prop("C04", "Reading a snapshot does not depend on how it was encoded",
     "Reading a Gadget-2 catalogue file returns the counts, cosmology, box width, particle mass, positions, velocities and IDs that were stored, whatever its byte order (when read with that order), ID width and block precision. "
     "Positions are wrapped by one box width into the box and velocities multiplied by the square root of the scale factor. "
     "A catalogue file that ends before its last particle's data, or whose block sizes fit neither precision, is refused: reading it never returns particles as if they had been stored.",
     ["inputs", "crash_points"], "for every particle content, encoding and every truncation point of the file",
     "No test reads a catalogue; encodings times truncation points cannot be sampled by hand.",
     ["render/io/io.go"], [("raw block reads with byte swapping", "render/io/io.go readVecAsByte, readVec64AsByte, readInt32AsByte, readInt64AsByte"), ("block size check", "render/io/io.go ReadGadgetParticlesAt")],
     [], ["io.ReadGadget, io.ReadGadgetHeader, io.ReadGadgetParticlesAt"])

prop("C05", "Sheet files round-trip; incomplete or foreign ones are refused",
     "What is written as a sheet file (header, positions, velocities) is read back identically, bit for bit, into header, position and velocity readers, independently of each other and of what was read before; the total particle count reported is the cube of the per-side count. "
     "If the file is missing, was cut short anywhere before the end of what is asked for, has a foreign header size, or does not have as many vectors as the caller's buffer, the read reports failure (an error or a panic) instead of success. "
     "Big-endian sheet files are read like little-endian ones.",
     ["inputs", "crash_points", "histories"], "for every header and particle content, every prefix of the file a crash can leave, every order of reads",
     "No test writes or reads a sheet; the crash points (every file prefix) and read orders are not enumerable by examples.",
     ["render/io/io.go"], [("header size and buffer length checks", "render/io/io.go readSheetHeaderAt, ReadSheetPositionsAt, ReadSheetVelocitiesAt"), ("raw vector I/O", "render/io/io.go writeVecAsByte, readVecAsByte")],
     [], ["io.WriteSheet, io.ReadSheetHeaderAt, io.ReadSheetPositionsAt, io.ReadSheetVelocitiesAt"])

prop("C06", "Density grid files are self-describing and round-trip",
     "A .gtet file holds a fixed-size header that records the endianness and version, the header size, the quantity, whether the grid is scalar or vector, the cosmology, the render parameters and the pixel and physical location, followed by exactly the finalised values of the buffer (one block for a scalar, three for a vector quantity). "
     "The Go and the Python readers return exactly the header and, for scalars, the values written, for 3D and for projected grids; the Go scalar reader refuses vector grids and files whose values are cut short. Run as a script, the Python reader prints that header. "
     "Values outside nothing but the buffer: a pixel nobody wrote reads as zero.",
     ["inputs", "crash_points"], "for every quantity, grid shape, projection axis, location, cosmology and truncation point",
     "No test writes or reads a grid file.",
     ["render/io/output.go", "render/density/buffer.go", "python/gotetra.py"], [("header layout and value blocks", "render/io/output.go WriteBuffer"), ("readers", "render/io/output.go ReadGrid, ReadGridHeader; python/gotetra.py")],
     [], ["io.WriteBuffer, io.ReadGrid, io.ReadGridHeader, python gotetra.read_header/read_grid"])

prop("C07", "Every sample is deposited in exactly the pixel that contains it",
     "When points carrying weights are rendered into a box, each point whose periodic pixel lies in the box's pixel range adds its weight once to that pixel (for a projected box: to its pixel column, divided by the projected depth for density) and points outside the range add nothing. "
     "The result is the same whether the accumulation buffer covers the sheet segment or the box, wherever box and segment lie relative to the periodic boundary, and for every projection axis. "
     "For velocity quantities the finalised value of a pixel is the mean of the velocities deposited in it, component by component, and zero where nothing was deposited.",
     ["inputs", "configurations"], "for every box, pixel scale, segment location, point set, projection axis and quantity",
     "No compiling test covers rendering; the case analysis (segment/domain x 2D/3D x periodic wrap) needs exhaustive combination.",
     ["render/box.go", "render/geom/grid.go", "render/density/buffer.go"], [("coordinate scaling and wrapping", "render/geom/grid.go ScaleVecsSegment, ScaleVecsDomain"), ("deposit", "render/box.go *Overlap*.Interpolate"), ("merge of the buffer into the grid", "render/box.go *Overlap*.Add")],
     [("bufCb/domCb", "pixel range of the buffer and of the box", "render/box.go baseOverlap")], ["render.NewBox, Box.Overlap, Overlap.ScaleVecs/Interpolate/Add"])

prop("C08", "A Monte Carlo pass samples every tetrahedron exactly once",
     "Rendering a sheet segment visits each of the six tetrahedra of every cube of the (sub)sampled segment exactly once, however the cubes are dealt out over workers, and deposits the configured number of samples of it, each an affine combination of that tetrahedron's four particles with the unit sample's barycentric weights. "
     "For density each sample carries the segment's mass per tetrahedron divided by the number of samples, so that all samples inside the box together carry the segment's mass; subsampling by s reads every s-th particle and scales the mass by s^3. "
     "Tetrahedra that cannot touch the box may be skipped, ones that can never are.",
     ["inputs", "configurations"], "for every segment width, subsampling length, worker count, sample count, box and particle placement",
     "Density tests do not compile; coverage of cubes x directions x workers is a counting statement over all of them.",
     ["render/density/interpolator.go", "render/geom/tetra.go", "render/render.go"], [("strided loop over cubes and directions", "render/density/interpolator.go mcarlo.Interpolate"), ("barycentric distribution", "render/geom/tetra.go DistributeTetra, DistributeTetra64"), ("tetrahedron/box overlap test", "render/geom/grid.go Intersect")],
     [], ["density.MonteCarlo(...).Interpolate"])

prop("C09", "A render depends only on its inputs, not on threads or order",
     "The grid rendered for a box equals the sum of the contributions of the sheet files that overlap it, each merged exactly once, for every number of threads, every interleaving of the workers, every order of the input files and whatever other boxes are rendered in the same run. "
     "A file whose particles do not reach a box contributes nothing to it, and no file that reaches it is left out. "
     "Per-box state (pixel scale, sample count, pixel range) never leaks from one box or file to the next.",
     ["schedules", "configurations", "histories"], "for every thread count, worker interleaving, file order, set of boxes and number of files",
     "No test runs the manager; schedules cannot be sampled by unit tests.",
     ["render/render.go", "render/box.go"], [("workers write private buffers, merged by one goroutine through a channel", "render/render.go RenderDensityFromFile, chanInterpolate"), ("files filtered per box at start", "render/render.go NewManager"), ("per box/file workspace initialisation", "render/render.go initWorkspaces")],
     [("workspaces", "per worker buffers", "render/render.go Manager"), ("validSegs", "files overlapping a box", "render/render.go renderer")], ["render.Manager"], "worker start/done/merge events")

prop("C10", "A requested region maps to the pixels that cover it",
     "A box requested at physical position X with width W at a pixel width p covers, per axis, the pixels floor(X/p) up to and including floor((X+W)/p); the particle range of a sheet header maps to pixels by the same rule. "
     "The pixel width is the simulation width divided by the number of pixels per side; with ImagePixels set, that number is the one making the box's longest side ImagePixels pixels long, otherwise it is TotalPixels. "
     "A projected box is rendered as a projection exactly for quantities that can be projected, onto the two remaining axes in increasing order.",
     ["inputs", "configurations"], "for every region, simulation width, pixel count, quantity and projection axis",
     "No test covers box construction.",
     ["render/box.go", "render/io/io.go", "render/main/main.go"], [("pixel range from floors", "render/box.go newBox2D, newBox3D; render/io/io.go CellBounds"), ("pixel scale", "render/main/main.go totalPixels")],
     [], ["render.NewBox, SheetHeader.CellBounds, headers of .gtet files"])

prop("C11", "The tetrahedra of a cube partition it, and sampling them is uniform",
     "The six tetrahedra of a cube of grid points have that cube's corners as vertices, have equal volume, do not overlap and together fill the cube; those of neighbouring cubes meet face to face, and with subsampling they are those of the coarser grid. The eight corner tetrahedra around a point use its six axis neighbours, are distinct, and are refused exactly when a neighbour lies outside the grid. "
     "Folding uniform unit-cube points into the unit tetrahedron preserves uniformity (every point of the tetrahedron has the same number of preimages), always lands inside, and the barycentric map then gives the affine combination of the four corners. "
     "Volume, barycentre, bounding cells and containment tests of a tetrahedron agree with its geometry, for every order of its corners and whatever the object was used for before.",
     ["inputs", "histories"], "for every cube, grid width, subsampling length, tetrahedron and history of the object",
     "The geometry tests do not compile any more; partition and uniformity are statements about all points.",
     ["render/geom/tetra.go"], [("table of directions", "render/geom/tetra.go Dirs, TetraIdxs.Init"), ("cube folding", "render/geom/tetra.go DistributeUnit, Distribute")],
     [], ["geom.TetraIdxs, geom.Tetra, geom.DistributeUnit"])

prop("C12", "Periodic vector, grid-index and pixel-range arithmetic is exact",
     "The displacement between two points of a periodic box (at most two box widths apart) is the shortest one, wrapping a point at most one box width outside returns the representative inside the box, and the cross, dot, sum and scale operations follow vector algebra; the in-place and at-location variants give the same result as the allocating ones, also when the output is one of the inputs, and change nothing else. "
     "Grid index and coordinates are inverse to each other for every origin, and bounds-checked lookup succeeds exactly inside the grid, also after a grid was given a new shape. "
     "The overlap test of two pixel ranges in a periodic grid never misses a shared pixel and reports no ranges more than a pixel apart, and the non-periodic one reports exactly those ranges that share one. Positions converted to pixels are relative to the range's origin, in the periodic image at or after it.",
     ["inputs"], "for every vector pair, box width, grid origin and shape, pair of pixel ranges",
     "The geometry tests do not compile; periodic case analysis needs all sign and wrap combinations.",
     ["render/geom/vec.go", "render/geom/grid.go"], [("minimum image rule", "render/geom/vec.go SubAt"), ("circular interval overlap", "render/geom/grid.go Intersect, bound")],
     [], ["geom.Vec, geom.Grid, geom.CellBounds"])

prop("C13", "Grid derivative operators are exact on polynomials and have no memory",
     "On a grid, the derivative of order 2 (4) along any axis is exact for fields that are polynomials of degree up to 2 (4) in grid coordinates (on axes with more pixels than that degree), in the interior and, for grids that do not fill the periodic box, at the edges; a grid that fills the box along an axis is differentiated periodically across that axis. "
     "Gradient, divergence and curl are built from those derivatives component by component with the usual signs; grid spacing is the box width over the number of cells. "
     "The result of an operator call depends only on its arguments: neither earlier calls nor the caller's options are affected, and accumulating versus overwriting acts as asked.",
     ["inputs", "histories"], "for every grid shape, axis, polynomial field and order of operator calls",
     "No compiling test covers derivatives; history independence is a statement about call sequences.",
     ["render/geom/deriv.go"], [("stencils for interior, edges and wrap", "render/geom/deriv.go"), ("options handling", "render/geom/deriv.go Curl, Divergence")],
     [("DerivOptionsDefault", "package-level default options", "render/geom/deriv.go")], ["geom.GridLocation.Gradient/Divergence/Curl"])

prop("C14", "Histograms count every sampled value exactly once, in its bin",
     "A tetrahedron histogram of a box counts each sample whose tetrahedron cube reaches the box and whose position lies in it exactly once, in the bin its value belongs to, and counts nothing else, so that totals do not depend on the number of threads, the worker interleaving or the order of files. "
     "Bins partition [min, max) evenly in the linear or logarithmic variable, values outside are dropped, and bin centres are the middles of their bins. "
     "Subsampling by s uses every s-th particle of the sheet.",
     ["inputs", "schedules", "configurations"], "for every box, thread count, subsampling length, scale and value distribution",
     "No test covers histograms.",
     ["render/hist.go"], [("partition of cubes over workers", "render/hist.go chanHistogram"), ("cube/box test", "render/hist.go cubeIntersects"), ("binning", "render/hist.go")],
     [("hist", "per worker counts", "render/hist.go")], ["render.HistManager"])

prop("C15", "Bounds and run configurations mean what their documentation says",
     "Every Box and Ball entry of a bounds file yields exactly one region: a Box its position and widths, a Ball the cube of side 2*radius*multiplier around its centre, wrapped into the simulation box; a ProjectionAxis is X, Y, Z or absent. "
     "Entries with positions outside the box, non-positive or oversized widths, or an unknown projection axis are refused, and every valid one is accepted. "
     "The printed example configurations, with any subset of their documented optional parameters switched on, parse, and the validity rules of the run configurations (powers of two for subsampling, formats, IDs, limits) accept exactly what is documented.",
     ["inputs", "configurations"], "for every combination of fields and values",
     "No test covers configuration.",
     ["render/io/config.go"], [("bounds checks", "render/io/config.go CheckInit"), ("validity predicates", "render/io/config.go Valid*")],
     [], ["io.ReadBoundsConfig, Valid* methods, -ExampleConfig"])

prop("C16", "The render command writes one faithful file per region",
     "A Render run writes, for every region of every bounds file given, exactly one file named PrependName + region name + AppendName + .gtet in the output directory, and no other file. "
     "Its header states what was actually rendered: quantity, pixel origin and span, pixel width, number of pixels per side, samples per tetrahedron, subsampling length, projection axis, cosmology and box width; its values are the rendered grid. "
     "Invalid configurations are refused before anything is written.",
     ["inputs", "configurations"], "for every combination of regions, names, pixel settings and quantity",
     "No test runs the command.",
     ["render/main/main.go", "render/io/output.go"], [("output loop", "render/main/main.go renderMain")], [], ["files written by -Render"])

prop("C17", "Sorting and selection return the right order statistics",
     "Quick and Shell sort any slice in place into ascending order and Reverse reverses it in place; each returns that slice, keeps exactly the same elements and touches nothing outside it. "
     "The n-th largest element, for n between 1 and the length, is the element that fewer than n elements exceed; the median is the middle element (between the two middle ones for an even count); the p-th percentile is the element that floor(p*length) elements precede in ascending order, the minimum for p=0 and the maximum for p=1. "
     "Selection never modifies the caller's slice, with or without a caller-supplied buffer.",
     ["inputs"], "for every slice (any length, duplicates, presorted runs) and every rank",
     "Existing tests sort a few random slices and never call Median or Percentile; ties, thresholds and ranks are unsampled.",
     ["math/sort/quick.go", "math/sort/shell.go", "math/sort/median.go", "math/sort/sort.go"],
     [("sentinel partition", "math/sort/quick.go partition"), ("quickselect", "math/sort/median.go nthLargest"), ("gap sequence", "math/sort/shell.go")],
     [], ["sort.Quick, Shell, Reverse, NthLargest, Median, Percentile"])

prop("C18", "Matrix algebra and linear solves are correct for every invertible system",
     "For every invertible matrix, LU-based solving returns the vector x with A x = b and, for matrices, the matrix X with A X = B; the inverse times the matrix is the identity and the determinant is the signed one, whatever row exchanges pivoting performs. "
     "Products of conforming matrices, including non-square ones, are the usual matrix products. "
     "In-place and at-location variants agree with the allocating ones and inputs are not modified unless asked for; the single precision type behaves the same. Shapes which do not conform are refused.",
     ["inputs"], "for every conforming shape and every invertible matrix",
     "The matrix tests contain benchmarks only.",
     ["math/mat/mat.go", "math/mat/mat32.go"], [("LU with partial pivoting", "math/mat/mat.go LUAt"), ("pivot application", "math/mat/mat.go forwardSubst"), ("multiplication", "math/mat/mat.go MultAt")],
     [], ["mat.Matrix, mat.Matrix32, mat.LUFactors"])

prop("C19", "Interpolators reproduce their tables and have no memory",
     "Every interpolator returns the tabulated value at each of its nodes; the linear family is exact for multilinear functions, a natural cubic spline is exact for linear tables, continuous with continuous first and second derivative, and its integral equals the integral of its pieces between any two points. "
     "This holds for increasing and decreasing node tables, evenly spaced or not. "
     "The value at a point depends only on the table: not on earlier evaluations, nor on one-by-one versus batch evaluation. Points outside the table are refused.",
     ["inputs", "histories"], "for every table (any size from the minimum, increasing or decreasing) and every sequence of evaluations",
     "Tests only plot splines; caches and search hints make results depend on histories nobody samples.",
     ["math/interpolate/linear_interpolators.go", "math/interpolate/cubic_interpolators.go", "math/interpolate/spline.go", "math/interpolate/search.go"],
     [("node search with cached guess", "math/interpolate/search.go"), ("tridiagonal solve", "math/interpolate/spline.go"), ("per-row caches", "math/interpolate/cubic_interpolators.go")],
     [("lastIdx", "cached search position", "math/interpolate/search.go")], ["interpolate.New*"])

prop("C20", "Smoothing kernels convolve correctly up to the edges",
     "Convolving a series with a kernel gives, at every index, the sum of kernel weights times the series extended beyond its ends by the chosen boundary condition (periodic continuation, mirror reflection about the end points, zeros, or constant extension). "
     "A kernel that sums to one leaves constants unchanged under every boundary condition but zero padding, and a Savitzky-Golay kernel of order p leaves polynomials of degree up to p unchanged away from the ends. "
     "The input is not modified and the at-location variant gives the same result.",
     ["inputs"], "for every series at least as long as the kernel, kernel width and boundary condition",
     "Tests compare four Savitzky-Golay coefficient sets and plot the rest.",
     ["math/interpolate/filter.go"], [("edge handling", "math/interpolate/filter.go ConvolveAt"), ("coefficient fit", "math/interpolate/filter.go NewSavGolKernel")],
     [], ["interpolate.Kernel"])

prop("C21", "Random number streams are reproducible, in range and chunk-independent",
     "A generator's stream is determined by its type and seed; drawing values one by one, in batches of any sizes or mixed gives the same stream. "
     "Generators do not influence one another. "
     "Uniform values lie in [low, high), integer ones in {low..high-1}, for every generator and range, and are spread evenly over it. "
     "The Sobol sequence is the standard one, drawn in any fixed number of up to six coordinates: together with the origin, the first 2^k - 1 points hit each dyadic interval of width 2^-k exactly once in every coordinate, and re-initialising starts it afresh.",
     ["inputs", "histories"], "for every seed, generator, range and sequence of calls",
     "Tests are benchmarks and plots only.",
     ["math/rand/rand.go", "math/rand/sobol.go", "math/rand/tausworthe.go", "math/rand/xorshift.go"], [("batch and single draws", "math/rand/rand.go"), ("Gray-code Sobol update", "math/rand/sobol.go")],
     [("generator state", "stream position", "math/rand")], ["rand.Generator, rand.SobolSequence"])

prop("C22", "Subhalo finding reports exactly the overlapping pairs",
     "For halos ordered by decreasing size, two halos are reported as intersecting exactly when the periodic distance of their centres is at most the sum of their (multiplied) radii, each pair once on either side: the earlier one as host, the later one as subhalo. "
     "This holds wherever the halos lie relative to the periodic boundary and the search grid, and the radii are left as they were. "
     "A finder may be used again with other radii, and what it handed out before stays as it was. "
     "The search grid lists every halo exactly once, in the cell containing it, and the cells said to cover a sphere are those it reaches, each once.",
     ["inputs"], "for every halo set, grid resolution, box width and radius multiplier",
     "The package has no tests and does not even compile in the test environment.",
     ["render/halo/finder.go", "render/halo/grid.go"], [("grid search with periodic wrap", "render/halo/finder.go FindSubhalos"), ("cross matching", "render/halo/finder.go crossMatch")],
     [("Heads/Next", "linked lists of the search grid", "render/halo/grid.go")], ["halo.SubhaloFinder, halo.Grid"])

prop("C23", "Halo catalogue columns survive conversion, selection and sorting",
     "Converting a Rockstar table to the binary format and reading columns back returns the same columns in the same order as reading the table directly, for every choice of columns; the top-n conversion keeps exactly the n halos of largest M200b (all of them if there are fewer). A conversion that cannot write its whole file reports it, and reading columns which are not wholly in a binary file is refused. "
     "Reading a catalogue sorted by size keeps each halo's id, position, mass and radius together and orders them from largest to smallest radius. "
     "The radius columns (RVir, Rs, RsKylpin), which tables give in kpc, are returned in Mpc, radii of other definitions are those which enclose the listed mass, and radius and mass conversions are inverse to each other for every overdensity definition.",
     ["inputs"], "for every table, column selection and n",
     "The package has no tests.",
     ["render/halo/io.go", "render/halo/radius.go"], [("column-wise binary layout", "render/halo/io.go RockstarConvert, binaryColGetter"), ("index sort", "render/halo/io.go idxSort")],
     [], ["halo.RockstarConvert, RockstarConvertTopN, ReadBinaryRockstarVals, ReadRockstarVals, ReadRockstar"])

prop("C24", "Cosmological background quantities follow the Friedmann equations",
     "The Hubble rate, critical density and mean matter density at any redshift agree with the Friedmann equations for every flat universe of matter and vacuum (the case the package documents), densities in h units, and so do the values recorded in grid headers.",
     ["inputs"], "for every cosmology and redshift", "No test covers them.",
     ["cosmo/param.go", "cosmo/const.go"], [("closed formulas", "cosmo/param.go")], [], ["cosmo.HubbleFrac, cosmo.RhoCritical, cosmo.RhoAverage"])

prop("C25", "Derivatives of tabulated series have the order they promise",
     "The numerical derivative of a series of (x, y) points is, at every point including the ends, exact for polynomials of degree up to the requested order (2 or 4), whether the points are evenly spaced or not and whichever way they run: it is the slope of the polynomial through the order + 1 points next to it (centred where the series allows). Results go to the caller's slice if one is given, the inputs and the results of earlier calls stay as they are, and series that are too short, of unequal lengths, odd orders and orders above 4 are refused.",
     ["inputs"], "for every series", "No test covers them.",
     ["math/calc/deriv.go"], [("finite difference weights", "math/calc/deriv.go Deriv")], [], ["calc.Deriv with calc.Out"])

prop("C26", "A failed or interrupted run is noticed and can simply be repeated",
     "The conversion, render and histogram commands report success only if every one of their output files is complete: a write that fails at any point (no space left, a size limit, a name that cannot be created) makes the command fail. Whatever a failed or killed run left in the output directory, a later undisturbed run of the same command produces exactly the files an undisturbed first run does. Unusable inputs (a missing directory, or one with anything but complete data files in it) and missing output directories of renders and histograms are noticed before any output file is touched. No run changes its inputs or other files in its output directory.",
     ["fault_sequences", "crash_points", "histories"], "for every fault or crash point and every sequence of runs",
     "The commands have no tests, and faults need to be injected at arbitrary points.",
     ["render/main/main.go", "render/io/io.go", "render/io/output.go"],
     [("output writing", "render/main/main.go renderMain, tetraHistMain, writeGrids; render/io/output.go WriteBuffer; render/io/io.go WriteSheet")], [],
     ["the command line program"])

prop("C27", "Mass and velocities survive the whole pipeline",
     "From the snapshot to the grids and histograms nothing is lost, duplicated or displaced. Converting a snapshot (any order and split of its particles over files, any number of cells, any units) and rendering the segments over the whole box deposits, for every cube of the particle lattice (read with any SubsampleLength), exactly 6 x Particles samples into pixels that the cube's particles span, whatever the cutting into segments, the units and the number of threads; so the density grid averages to one. Velocity pixels lie between the velocities of the particles around them, and are zero where nothing can be. Histograms of the segments over such a grid count every sample in the box once, in the bin of the value of its pixel. The grid carries the snapshot's cosmology and box width.",
     ["inputs", "configurations", "histories"], "for every snapshot, cutting, unit system, region, sampling and number of threads",
     "No test runs more than one step of the pipeline, and two steps that agree with each other can both be wrong.",
     ["render/main/main.go", "render/render.go", "render/hist.go", "render/io/io.go"],
     [("conversion", "render/main/main.go lGadget2Main"), ("render", "render/main/main.go renderMain; render/render.go"), ("histogram", "render/main/main.go tetraHistMain; render/hist.go")], [],
     ["segments (with the particles after them) that span less than half the box"])

DONE = json.load(open(os.path.join(V, "tools", "claimed.json")))   # id -> {note}
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))  # id -> reason

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")

M = {"version": 1, "setup_cmd": "bin/setup",
     "checks": [], "not_applicable": []}
hooks = os.path.join(V, "tools", "hooks.json")
if os.path.exists(hooks):
    M["hooks"] = json.load(open(hooks))
for p in P:
    if p["id"] in DONE:
        d = DONE[p["id"]]
        M["checks"].append({"property": p["id"], "quick_cmd": "bin/check %s quick" % p["id"],
                            "thorough_cmd": "bin/check %s thorough" % p["id"],
                            "evidence_file": "evidence/%s.json" % p["id"],
                            "technique": d.get("technique", "TLA+ specification model-checked with TLC; traces of the real code validated against it"),
                            "level": "model_checking", "level_note": d["note"]})
    else:
        M["not_applicable"].append({"property": p["id"], "reason": NA.get(p["id"], "no check built yet")})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(M, f, indent=1)
    f.write("\n")
