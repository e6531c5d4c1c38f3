"""The properties of freud, one entry each."""

ENUM = "Bounded exhaustive enumeration on the real library (explicit-state, reference-model oracle)"
TRUST = ("Trusts the numpy reference model in mc/ref.py and the shim that replaces oneTBB's loops by "
         "explored ones; says nothing beyond the stated bounds. ")
FULL = ("The classes concerned are built from freud's sources with stand-ins (mc/standin) for the submodules missing here "
        "(fsph, voro++) and the system's Eigen; freud's own tests of them pass on that build. ")

PROPS = [
    dict(
        id="P01", title="Results do not depend on how work is split over threads",
        statement="Every computation of freud gives the same result, bit for bit in its integer outputs and to rounding "
        "elsewhere, whatever number of threads is used, however its loops are cut into pieces, in which order the pieces run and on which "
        "thread: neighbor queries and lists, histograms and their accumulation over several calls, densities, order parameters, "
        "clusters, buffers, diffraction, MSD and box operations alike.",
        over=["schedules", "inputs"],
        quant="every partition of every parallel loop, order and assignment of pieces to threads; every computation",
        why="Tests run under whatever one schedule TBB picks on the machine; small test inputs are mostly carried out in one piece.",
        files=["freud/util/utils.h", "freud/util/ThreadStorage.h", "freud/util/Histogram.h", "freud/locality/NeighborComputeFunctional.h",
               "freud/locality/NeighborQuery.h", "freud/order/Cubatic.cc"],
        mech=[("loop wrappers", "freud/util/utils.h"), ("thread-local histograms and their reduction", "freud/util/Histogram.h"),
              ("loops over bonds", "freud/locality/NeighborComputeFunctional.h")],
        tech="Stateless model checking of the real library under a controlled scheduler that replaces oneTBB's work distribution",
        note="Trusts the shim to allow exactly the plans oneTBB may choose. All plans of small loops; second departures from the serial "
        "plan are thinned out where their number is large, as the evidence counts."),
    dict(
        id="P02", title="Parallel loops are free of data races and cluster merging is linearizable",
        statement="In no computation do two iterations of a parallel loop access the same memory, one of them changing it, without "
        "synchronisation. Clusters and link-cell queries, whose iterations share state on purpose, give the right "
        "answer under every interleaving of their atomic operations, and always finish.",
        over=["schedules"],
        quant="every pair of iterations of every loop; every interleaving at atomic operations",
        why="A race shows up in a test once in many runs, if at all, and not on small inputs.",
        files=["freud/cluster/Cluster.cc", "extern/dset/dset.h", "freud/locality/LinkCell.cc", "freud/util/ThreadStorage.h",
               "freud/util/Histogram.h", "freud/util/utils.h"],
        mech=[("lock-free union-find", "extern/dset/dset.h"), ("lazily computed cell neighbors", "freud/locality/LinkCell.cc")],
        tech="Happens-before analysis of all pairs of iterations and exhaustive delay-bounded exploration of interleavings of the real code",
        note="Sequentially consistent interleavings; a write that leaves the value as it was is not counted as a conflict."),
    dict(
        id="P03", title="The number of threads follows the settings in force",
        statement="After any sequence of set_num_threads calls and NumThreads contexts, nested, reused, made in advance, or left "
        "by an exception, get_num_threads and the limit in force in oneTBB are those of the innermost setting; leaving a context restores what "
        "was in force when it was entered; None, 0 and negative numbers mean all threads.",
        over=["histories"], quant="every sequence of settings and contexts up to the bound",
        why="Tests cover one context around one setting.",
        files=["freud/parallel.py", "freud/parallel/tbb_config.cc"],
        mech=[("context manager", "freud/parallel.py"), ("global limit", "freud/parallel/tbb_config.cc")],
        tech="Exhaustive enumeration of operation histories against an explicit-state model",
        note="The limit is read from oneTBB itself."),
    dict(
        id="P04", title="Ball queries return exactly the pairs within the radius",
        statement="A ball query (r_max, optionally r_min, exclude_ii) on any periodic orthorhombic or triclinic "
        "box in 2D or 3D returns exactly the pairs of query points and point images whose distance lies in "
        "[r_min, r_max), each once, with the right distance and vector, whichever finder answers it (AABB "
        "tree, link cells of any cell width, cell query, raw points), through both the list and the lazy interface. "
        "With exclude_ii no pair with equal indices is returned; two finders never disagree on a pair. In a box that is not "
        "periodic along every direction a finder refuses or counts only the images that exist.",
        over=["inputs", "configurations"],
        quant="every box shape, point set, pair of radii, finder and cell width; query points equal to or "
        "different from the points",
        why="The tests sample random points in a few boxes; boundary hits, elongated or tilted cells, radii near half "
        "the box, coincident points and cells on faces are met by chance only.",
        files=["freud/locality/AABBQuery.cc", "freud/locality/LinkCell.cc", "freud/locality/CellQuery.cc",
               "freud/locality/AABBTree.h", "freud/locality/NeighborQuery.h", "freud/locality.py"],
        mech=[("AABB tree traversal over image boxes", "freud/locality/AABBQuery.cc"),
              ("cell shells", "freud/locality/LinkCell.h"), ("per-cell neighbours", "freud/locality/CellIterator.h")],
        tech=ENUM, note=TRUST + "Pairs within rounding of a radius may go either way unless the coordinates are dyadic."),
    dict(
        id="P05", title="Nearest-neighbor queries return the k nearest qualifying points",
        statement="A nearest query (num_neighbors k, optionally r_min, r_max, r_guess, scale, exclude_ii) returns "
        "for each query point its k nearest points by minimum-image distance among those with r_min <= distance "
        "< r_max (in tilted boxes, as long as that is below half the distance of its planes), all of them if fewer qualify, "
        "no point twice, in order of distance. The result does not depend on the finder, on its cell width, or on r_guess and scale.",
        over=["inputs", "configurations"],
        quant="every box shape, point set, k, radii, guess and scale, and finder",
        why="The tests compare two finders on random points in cubic boxes; the expansion of the search radius and shells, "
        "elongated cells and k close to or above the number of points are hardly reached.",
        files=["freud/locality/AABBQuery.cc", "freud/locality/LinkCell.cc", "freud/locality/NeighborQuery.h"],
        mech=[("growing search radius", "freud/locality/AABBQuery.cc"), ("growing shell of cells", "freud/locality/LinkCell.cc")],
        tech=ENUM, note=TRUST + "Ties within rounding may be resolved either way."),
    dict(
        id="P06", title="Plots show exactly the current results",
        statement="plot() of a box, a system, an RDF, correlation function, density or voxel grid in 2D, clusters, PMFTXY, hexatic order, Debye structure factor, diffraction pattern (also to_image()), MSD or Voronoi cells draws "
        "exactly the values of the current results, each at its own coordinates with x to the right and y upwards, on the axes given or on new ones, with the title, image and style asked for; "
        "before compute it is refused like the result. Whatever is plotted or made a png in between, results, inputs and later computations are those without plots.",
        over=["inputs", "histories"], quant="every history of up to 3 computations, accumulations, plots and pngs of 15 kinds of results; 13 cells x images x styles; drawing functions x labels, axes, colourings",
        why="Tests only look whether a plot is made, for one system.",
        files=["freud/plot.py", "freud/box.py", "freud/density.py", "freud/cluster.py", "freud/pmft.py", "freud/diffraction.py", "freud/order.py", "freud/msd.py", "freud/locality.py"],
        mech=[("drawing", "freud/plot.py"), ("what is drawn", "plot methods of the compute classes"), ("pngs", "_repr_png_")],
        tech="Exhaustive enumeration of histories of computations and plots on the real library; every drawn artist read back and compared with the results", note=TRUST),
    dict(
        id="P07", title="Lazy query results equal the list, whatever happens meanwhile",
        statement="Iterating over a query result yields exactly the bonds of the neighbor list made from the same query, "
        "each once, and iterating again or building the list before, after or in the middle of an iteration yields them "
        "again. Results are unaffected by other queries, on the same object or others, that are alive at the same time, by the caller "
        "overwriting the input arrays or dropping references, and by there being no query points.",
        over=["histories", "inputs"],
        quant="every sequence of operations on one finder and its live iterators",
        why="The tests iterate once over a fresh query; sharing of state between iterators and lifetime of the inputs "
        "need particular sequences.",
        files=["freud/locality/NeighborQuery.h", "freud/locality/CellQuery.h", "freud/locality/AABBQuery.h",
               "freud/locality/LinkCell.h", "freud/locality.py"],
        mech=[("per-point iterators", "freud/locality/NeighborQuery.h")],
        tech="Exhaustive enumeration of operation histories on the real library",
        note=TRUST + "Histories up to the stated length."),
    dict(
        id="P08", title="A NeighborList holds exactly what its history says",
        statement="A neighbor list built from arrays, from all pairs or by a query keeps, through any sequence of filter, "
        "filter_r, sort, copy and reads, exactly the bonds it should with their indices, vectors, distances and weights, "
        "ordered by query point, with counts, segments, sizes and find_first_index agreeing with them. Invalid "
        "inputs (indices out of range or unsorted, short masks, empty distance ranges) are refused and leave it unchanged; "
        "a copy never changes with the original. All-pairs lists hold every pair once with the minimum-image vector from "
        "query point to point.",
        over=["histories", "inputs"],
        quant="every small list and every sequence of operations on it and its copies",
        why="The tests apply one operation to one list; cached counts and segments, copies and gaps in the query points "
        "go wrong only in sequences.",
        files=["freud/locality/NeighborList.cc", "freud/locality/NeighborList.h", "freud/locality.py"],
        mech=[("cached segments and counts", "freud/locality/NeighborList.h"), ("filter, sort, copy", "freud/locality/NeighborList.cc")],
        tech="Exhaustive enumeration of operation histories against an explicit-state model",
        note=TRUST + "Lists of up to 5000 bonds, histories up to the stated length."),
    dict(
        id="P09", title="SANN and RAD filters keep exactly the bonds of their definition",
        statement="The SANN filter keeps for each query point the m nearest neighbors where m is the smallest number "
        "that satisfies the solid-angle criterion, and the RAD filter keeps the neighbors not blocked by "
        "a closer one (open: all such; closed: up to the first blocked one). Kept bonds keep their vectors, distances "
        "and weights, unfilled shells are reported as an error or allowed as asked, and "
        "the input list is not changed.",
        over=["inputs", "configurations"],
        quant="every system, neighbor list, filter and mode",
        why="The tests use perfect crystals and one random system.",
        files=["freud/locality/FilterSANN.cc", "freud/locality/FilterRAD.cc", "freud/locality/Filter.h", "freud/locality.py"],
        mech=[("shell search", "freud/locality/FilterSANN.cc"), ("blocking test", "freud/locality/FilterRAD.cc")],
        tech=ENUM, note=TRUST),
    dict(
        id="P10", title="A periodic buffer holds exactly the images asked for",
        statement="PeriodicBuffer returns, for a buffer distance per dimension, every periodic image of every point inside the box grown by that "
        "distance on each side, and for image counts one image of every point for each of the cells that tile the grown box, "
        "each once, with the index of its original, with or without the originals as asked, in 2D and 3D and in tilted boxes; the buffer box has the grown "
        "lengths and the tilts of the box.",
        over=["inputs", "configurations"], quant="every box, point set, buffer vector and image count",
        why="Tests use two points in a square and a cube and a few buffer sizes.",
        files=["freud/locality/PeriodicBuffer.cc", "freud/locality.py"],
        mech=[("image loop", "freud/locality/PeriodicBuffer.cc")], tech=ENUM, note=TRUST),
    dict(
        id="P11", title="Wrapping, images and distances of a box agree with its lattice",
        statement="For every box, 2D or 3D, tilted or not, periodic in any subset of directions, and every vector however far away or exactly on a face: wrap "
        "moves it by whole lattice vectors into the half-open box along periodic directions only; unwrap(wrap(v), get_images(v)) is v; contains holds exactly for image "
        "zero; make_absolute and make_fractional are inverse and follow the box matrix; distances are lengths of wrapped differences; "
        "center_of_mass and center respect periodicity. The result is the same for lists, float64, strided or single vectors and with out=.",
        over=["inputs", "configurations"], quant="every box, periodicity and vector",
        why="Tests check a few vectors in a few boxes, hardly any on a face or more than one box away.",
        files=["freud/box/Box.h", "freud/box.py", "freud/box/export-Box.h"],
        mech=[("wrap, images, fractional coordinates", "freud/box/Box.h")], tech=ENUM, note=TRUST),
    dict(
        id="P12", title="A Box is what its history says, in every representation",
        statement="After any sequence of assignments to lengths, tilts, dimensions and periodicity, scaling, and conversion through dictionaries, "
        "lists, matrices, lengths and angles, objects, repr or other boxes, a Box reports the lengths, tilts, volume, vectors, angles, dimensionality and "
        "periodicity that follow, equality tells boxes apart by every parameter, geometry follows the current parameters, copies are independent, "
        "and refused operations change nothing.",
        over=["histories", "configurations"], quant="every sequence of operations up to the bound",
        why="Tests read back one assignment at a time.",
        files=["freud/box.py", "freud/box/Box.h"],
        mech=[("from_box, from_matrix", "freud/box.py"), ("setL, set2D", "freud/box/Box.h")],
        tech="Exhaustive enumeration of operation histories against an explicit-state model", note=TRUST),
    dict(
        id="P13", title="Results are those of the computations since the last reset",
        statement="What a compute object reports depends on the computations since the last reset (compute resets unless "
        "reset=False) and on nothing else done before: earlier systems, what was read and when, refused calls. Accumulating "
        "with reset=False adds histogram counts exactly and gives the average over frames for rdf, n_r, correlation, bond_order, S(k), "
        "diffraction and (as a density) pmft; for MSD, the particles of all calls. The RDF "
        "follows the normalization_mode in force when it is read. Reading twice gives the same.",
        over=["histories"], quant="every sequence of computing, accumulating and reading up to the bound, for every computation",
        why="Tests compute once or accumulate equal frames; lazy reductions and cached results go stale only in sequences.",
        files=["freud/util/Histogram.h", "freud/locality/BondHistogramCompute.h", "freud/density/RDF.cc", "freud/density.py", "freud/pmft.py",
               "freud/diffraction/StaticStructureFactorDebye.cc", "freud/diffraction.py", "freud/msd.py", "freud/environment.py", "freud/util.py"],
        mech=[("lazy reduction", "freud/locality/BondHistogramCompute.h"), ("computed properties", "freud/util.py")],
        tech="Exhaustive enumeration of operation histories on the real library with algebraic oracles",
        note=TRUST + "Histories up to the stated length over a few pairs of systems."),
    dict(
        id="P14", title="Results can be read once computed, and never before",
        statement="Before the first successful compute, and after any number of refused ones, every result property and plot of "
        "every compute object raises AttributeError, and its notebook picture is empty; from the first successful compute "
        "on, resetting or not, every one can be read, whatever is refused later. What is refused on a fresh object stays refused.",
        over=["histories"], quant="every computation and sequence of computing, refused calls, reading and plotting",
        why="Tests check a few properties of a fresh object; refusals before and after computing are not combined.",
        files=["freud/util.py", "freud/density.py", "freud/locality.py", "freud/msd.py", "freud/order.py", "freud/cluster.py",
               "freud/environment.py", "freud/interface.py", "freud/diffraction.py", "freud/pmft.py"],
        mech=[("computed flag", "freud/util.py")],
        tech="Exhaustive enumeration of operation histories against an explicit-state model", note=TRUST),
    # P15
    dict(
        id="P15", title="Histograms put every value in the one bin that contains it",
        statement="In the histograms of RDF, CorrelationFunction, the PMFTs and BondOrder, every value in [lower bound, upper bound) "
        "of every axis is counted once, in the bin whose edges enclose it (up to float rounding at the edge itself), and every "
        "value outside in none; angles count the same after whole turns. Counts are exact beyond 2^24. bin_edges, bin_centers, bounds and nbins "
        "agree with each other and the constructor's arguments.",
        over=["inputs"], quant="every edge, its float neighbors and the values between, for all axes, bin numbers and ranges of the grid",
        why="Tests histogram a few random values in a few bins; rounding at edges depends on the bins and the range.",
        files=["freud/util/Histogram.h", "freud/density/RDF.cc", "freud/density/CorrelationFunction.h", "freud/pmft/PMFTXY.cc",
               "freud/pmft/PMFTXYT.cc", "freud/pmft/PMFTXYZ.cc", "freud/pmft/PMFTR12.cc", "freud/environment/BondOrder.cc"],
        mech=[("axes", "freud/util/Histogram.h")],
        tech="Exhaustive enumeration of bin-boundary inputs on the real library against exact bin assignment", note=TRUST),
    dict(
        id="P16", title="RDFs and correlation functions follow their definitions",
        statement="For every system and neighbor argument, bin_counts holds the number of (query point, point) pairs per distance bin in [r_min, r_max), own point "
        "left out by default when no query points are given; rdf is those counts divided by shell volume (area in 2D), query points, frames and number density "
        "(corrected by (N-1)/N in finite_size mode); n_r is the running mean of neighbors; CorrelationFunction is the "
        "mean over the bonds of each bin of conj(query value) times value, 0 in empty bins, complex results for complex values. Any number of bins works.",
        over=["inputs"], quant="every system of the catalog, radial range, number of bins, mode, neighbor argument and number of frames",
        why="Tests check ideal gases, whose rdf is 1, and constant values; factors such as the density of query points or conjugation cancel.",
        files=["freud/density/RDF.cc", "freud/density/CorrelationFunction.h", "freud/density.py"],
        mech=[("normalization", "freud/density/RDF.cc"), ("values per bond", "freud/density/CorrelationFunction.h")],
        tech=ENUM, note=TRUST + "Bonds within rounding of a bin edge may fall on either side."),
    dict(
        id="P17", title="Densities on grids and around points follow their definitions",
        statement="GaussianDensity is, at each grid point, the sum over the points closer than r_max (nearest image, in the periodic "
        "directions of the box) of value times the normalized Gaussian of the distance; SphereVoxelization is 1 exactly where a point is closer than r_max; "
        "in any box (tilted ones up to half the distance of its planes), for any grid, with shape equal to the widths. LocalDensity counts neighbors closer than r_max - diameter/2 "
        "fully and up to r_max + diameter/2 linearly less, and divides by the volume (area) of radius r_max.",
        over=["inputs"], quant="every box, point set, grid, radius, weight and set of periodic directions of the grid",
        why="Tests use cubic boxes with points inside; images of cells across faces, uneven grids and truncated ranges are not sampled.",
        files=["freud/density/GaussianDensity.cc", "freud/density/SphereVoxelization.cc", "freud/density/LocalDensity.cc", "freud/density.py"],
        mech=[("cells within range", "freud/density/GaussianDensity.cc"), ("cells within range", "freud/density/SphereVoxelization.cc"),
              ("partial neighbors", "freud/density/LocalDensity.cc")],
        tech=ENUM, note=TRUST + "Grid points at r_max up to rounding may count or not."),
    dict(
        id="P18", title="Clusters are the connected components, with properties as defined",
        statement="Cluster labels exactly the connected components of the bonds it is given or finds, in whichever direction and order they come, numbered "
        "by decreasing size, then by least point index; cluster_keys lists each cluster's keys, point indices by default. For any labels and masses, ClusterProperties "
        "gives sizes, masses, centers (Box.center_of_mass: circular mean in periodic, plain mean in other directions), gyration and inertia tensors and radii of gyration from each "
        "cluster's own points.",
        over=["inputs"], quant="every graph on up to 5 points, every labeling of 5 points, every system of the catalog",
        why="Tests use a few well-separated clusters, sorted points and equal masses.",
        files=["freud/cluster/Cluster.cc", "freud/cluster/ClusterProperties.cc", "freud/cluster.py", "freud/box/Box.h"],
        mech=[("union of bonds and numbering", "freud/cluster/Cluster.cc"), ("sums per cluster", "freud/cluster/ClusterProperties.cc"),
              ("center of mass", "freud/box/Box.h")],
        tech="Exhaustive enumeration of small graphs and labelings on the real library against a reference model", note=TRUST),
    dict(
        id="P19", title="PMFTs count every bond in the bin of its own frame",
        statement="PMFTs over any systems, orientations (quaternions, or angles where 2D), equivalent orientations, NeighborList or query, and frames "
        "count each bond once per equivalent orientation, half-open, in the documented frame: R12 by |r|, t1 = point's and t2 = query point's angle to the bond; XY and XYT "
        "the bond turned by minus the query point's angle (XYT also the point's angle to the bond); XYZ turned by the conjugate orientation, then each equivalent one, displaced by shiftvec. "
        "pcf = counts V / (pairs x frames x equivalents x bin volume); pmft = -log pcf; shapes, edges and centers match.",
        over=["inputs"], quant="every system, orientation set and bin layout of the catalog, one to three frames",
        why="Tests place one or two points in one frame with round bin numbers and square shapes.",
        files=["freud/pmft/PMFTR12.cc", "freud/pmft/PMFTXYT.cc", "freud/pmft/PMFTXY.cc", "freud/pmft/PMFTXYZ.cc", "freud/pmft/PMFT.h", "freud/pmft.py"],
        mech=[("binning of bonds", "freud/pmft/PMFTXYT.cc"), ("normalization", "freud/pmft/PMFT.h"), ("equivalent orientations, shift", "freud/pmft/PMFTXYZ.cc")],
        tech=ENUM, note=TRUST + "Bonds on a bin's edge up to rounding may count on either side or not at all at the range's end."),
    dict(
        id="P20", title="Environment histograms and projections follow their definitions",
        statement="For any systems, orientations, equivalent orientations and neighbors: BondOrder counts bond directions in its mode's frame (bod plain; lbod turned by the "
        "conjugate of the point's orientation; obcd then by the query point's orientation; oocd the query point's z axis so turned) on theta x phi, per solid angle and frame; AngularSeparationNeighbor / Global give the least "
        "angle 2 acos over equivalents (whichever of them comes first); LocalBondProjection gives the largest projection of each bond, in the point's frame, on the equivalents of each axis, and it normed by the bond length. "
        "Order and size follow the neighbor list.",
        over=["inputs"], quant="every system, orientation set, symmetry group and bin layout of the catalog, accumulated frames",
        why="Tests use perfect crystals or single bonds.",
        files=["freud/environment/BondOrder.cc", "freud/environment/AngularSeparation.cc", "freud/environment/LocalBondProjection.cc", "freud/environment.py"],
        mech=[("modes and bins", "freud/environment/BondOrder.cc"), ("least angle over equivalents", "freud/environment/AngularSeparation.cc"),
              ("largest projection", "freud/environment/LocalBondProjection.cc")],
        tech=ENUM, note=TRUST + "Symmetry groups contain both signs of each quaternion."),
    dict(
        id="P21", title="Order parameters follow their definitions",
        statement="Hexatic is the mean of exp(i k theta) over each point's bonds as the neighbor list stores them (weighted by its weights if asked, over their sum; 0 without neighbors), for any k, "
        "also when images or stored vectors differ from the points' difference; RotationalAutocorrelation of any even l up to 30 is the mean over points of U_l(cos of half the relative angle)/(l+1), 1 for "
        "the reference itself; Cubatic's director, tensors, per-particle and global order parameters agree with each other and, for a seed, with every run.",
        over=["inputs", "schedules"], quant="every system, k, weight and neighbor list of the catalog; every even l to 30; seeds and replicates",
        why="Tests use perfect crystals, low l and unweighted neighbors found by the default query.",
        files=["freud/order/HexaticTranslational.cc", "freud/order/RotationalAutocorrelation.cc", "freud/order/Cubatic.cc", "freud/order.py"],
        mech=[("bond sums", "freud/order/HexaticTranslational.cc"), ("hyperspherical harmonics", "freud/order/RotationalAutocorrelation.cc"),
              ("annealing and tensors", "freud/order/Cubatic.cc")],
        tech=ENUM, note=TRUST),
    dict(
        id="P22", title="Structure factors and diffraction patterns follow their definitions",
        statement="StaticStructureFactorDebye gives, for any k range and points (or query points and N_total), the Debye sum over wrapped distances (sin(kr)/kr in 3D, J0 in 2D) / N, averaged over frames. "
        "DiffractionPattern gives at every pixel, for any view turned in the plane of a box face, zoom, grid and output size, peak width and weights, the interpolated |sum w exp(-ikr)|^2/N of "
        "the lattice frequencies, with the Gaussian's attenuation, S(0)=N at the center; k_values and k_vectors are the pixels' own wave vectors.",
        over=["inputs"], quant="every box and system of the catalog; 24 axis-aligned views and in-plane turns of them, odd and even grids",
        why="Tests check the center peak and one unrotated pattern.",
        files=["freud/diffraction/StaticStructureFactorDebye.cc", "freud/diffraction.py"],
        mech=[("Debye sum", "freud/diffraction/StaticStructureFactorDebye.cc"), ("projection, transform, k_vectors", "freud/diffraction.py")],
        tech=ENUM, note=TRUST + "Patterns are stored with rows along the view's y axis and k_vectors with rows along x (tests fix both)."),
    dict(
        id="P23", title="Mean squared displacements follow their definition",
        statement="For every trajectory of any length and distance from the origin, particle_msd is, per particle and lag, the mean over all windows of that lag of the squared "
        "displacement (mode window, the default) or the squared displacement from the first frame (direct), to single precision of the displacements; msd is its mean over particles. With a "
        "box and images the positions are unwrapped first. Calls with reset=False add particles, in order; reset=True starts anew. Inputs are not changed, and "
        "images of another shape are refused.",
        over=["inputs", "histories"], quant="every trajectory over few positions up to 5 frames, every image history of 3 frames, every split into calls, lengths to 300",
        why="Tests use a straight line, one random walk and one box.",
        files=["freud/msd.py", "freud/box.py"],
        mech=[("windows by FFT", "freud/msd.py"), ("unwrapping", "freud/box.py")],
        tech=ENUM, note=TRUST + "Errors are measured against the displacements, not against the distance from the origin."),
    dict(
        id="P24", title="The form in which inputs are given makes no difference",
        statement="Every computation gives the same results for one system given as a tuple, list, finder, object with box and points, MDAnalysis timestep, gsd, HOOMD-blue, garnett or OVITO frame, with "
        "the box in any box-like form, tilted or not; for arrays as lists, in double precision, strided, Fortran-ordered or of subclasses; and for neighbors as query arguments (exclude_ii "
        "defaulting to whether query points are absent) or as the neighbor list of any finder, copied, rebuilt from arrays, sorted by distance or filtered. No input is changed.",
        over=["inputs", "configurations"], quant="every computation x system form x array form x neighbor form of the catalog",
        why="Tests check forms with a few computations and orthorhombic boxes.",
        files=["freud/locality.py", "freud/util.py", "freud/box.py", "freud/locality/NeighborComputeFunctional.h"],
        mech=[("systems", "freud/locality.py"), ("arrays", "freud/util.py"), ("bonds from either source", "freud/locality/NeighborComputeFunctional.h")],
        tech=ENUM, note=TRUST + "Read-only and byte-swapped arrays may be refused. HOOMD-blue, garnett and OVITO objects are stand-ins with their attributes."),
    dict(
        id="P25", title="Interfaces are the points that bonds connect",
        statement="Interface gives, for any neighbor list or query arguments, as point_ids and query_point_ids exactly the sorted indices, each once, of the points and query points that take part in "
        "a bond, and their numbers as point_count and query_point_count; none without bonds. exclude_ii defaults to False with query points and True without.",
        over=["inputs"], quant="every neighbor list between 3 query points and 3 points; every system of the catalog x radii x exclusion",
        why="Tests use two points or a slab.",
        files=["freud/interface.py", "freud/locality.py"],
        mech=[("points of bonds", "freud/interface.py"), ("default list", "freud/locality.py")],
        tech="Exhaustive enumeration of small neighbor lists and of systems on the real library against a reference search", note=TRUST),
    dict(
        id="P26", title="Generated systems are the lattices asked for",
        statement="UnitCell.generate_system gives, for any box, basis, numbers of replicas (one, or one per direction) and scale, the box of the replicated scaled cell and in it exactly one point per "
        "replica and basis point, on their common lattice (up to one shift), grouped by basis point; in 2D in the plane. Noise has the strength asked for, is reproducible by seed, and "
        "leaves points in the box. Named cells have their neighbor numbers and distances; CIF files give their cell. Bad numbers of replicas are refused, the cell is never changed. "
        "make_random_system fills its box uniformly, reproducibly by seed.",
        over=["inputs"], quant="27 kinds of cells x every number of replicas up to 3 per direction x scales",
        why="Tests use named cells with equal, small numbers of replicas.",
        files=["freud/data.py", "freud/locality/PeriodicBuffer.cc", "freud/box.py"],
        mech=[("replication, shift, noise", "freud/data.py"), ("images", "freud/locality/PeriodicBuffer.cc")],
        tech=ENUM, note=TRUST),
    dict(
        id="P27", title="Order of points and origin of the system make no difference",
        statement="Permuting points and query points with everything that belongs to them permutes per-point results, relabels bonds, clusters and ids accordingly, and changes nothing else; moving all "
        "points by any vector, wrapped into the periodic box, changes no result of computations without a fixed grid, except that cluster centers move along, modulo the box.",
        over=["inputs"], quant="37 computations x systems of the catalog x orders and translations; every order of 4 points",
        why="Tests fix one order and one origin.",
        files=["freud/locality/AABBQuery.cc", "freud/locality/LinkCell.cc", "freud/locality/NeighborComputeFunctional.h", "freud/cluster/Cluster.cc",
               "freud/cluster/ClusterProperties.cc", "freud/locality/BondHistogramCompute.h"],
        mech=[("bonds", "freud/locality/AABBQuery.cc"), ("labels", "freud/cluster/Cluster.cc"), ("histograms", "freud/locality/BondHistogramCompute.h")],
        tech=ENUM, note=TRUST),
    dict(
        id="P28", title="What was read stays as it was read",
        statement="Arrays, lists, boxes and query results taken from any compute object, neighbor list or query keep their "
        "values whatever is computed, accumulated, read, filtered, garbage-collected or destroyed afterwards (the object "
        "they came from included); no result refers to freed memory.",
        over=["histories"], quant="every computation and every sequence of later events up to the bound",
        why="Tests look at results at once, while everything they may refer to is alive and unchanged.",
        files=["freud/util/ManagedArray.h", "freud/util/export-ManagedArray.h", "freud/util/Histogram.h", "freud/locality.py", "freud/locality/NeighborList.h",
               "freud/density.py", "freud/locality/BondHistogramCompute.h"],
        mech=[("shared arrays", "freud/util/ManagedArray.h"), ("keep-alive of numpy views", "freud/util/export-ManagedArray.h")],
        tech="Exhaustive enumeration of operation histories on the real library with poisoned freed memory",
        note=TRUST + "Sorting a neighbor list in place, which is documented to reorder it, is not among the events."),
    dict(
        id="P29", title="Inputs that do not fit together are refused",
        statement="Every computation, finder and box operation refuses with an exception, never reading past an array's end or crashing: per-point arrays (orientations, values, keys, labels, masses, "
        "weights, images) with more, fewer or no rows or other columns or dimensions than the points they belong to; neighbor lists made for other numbers of points or query points; "
        "points, vectors and outputs that are not (N, 3), or outside the plane of a 2D box; query arguments that are missing, unknown, contradictory, not positive, or reach beyond half the box; neighbor lists of arrays of unequal lengths, unsorted or out of range, and masks too short or radii out of order to filter them. After "
        "a refusal the object computes as if new.",
        over=["inputs", "histories"], quant="41 computations x every per-point array x 14 manglings; 11 sizes of neighbor lists; 20 query arguments x 4 finders",
        why="Tests refuse a few arrays of a few computations.",
        files=["freud/util.py", "freud/locality.py", "freud/locality/NeighborQuery.h", "freud/locality/NeighborList.cc", "freud/box.py"],
        mech=[("array shapes", "freud/util.py"), ("query arguments", "freud/locality/NeighborQuery.h"), ("sizes of lists", "freud/locality/NeighborList.cc")],
        tech=ENUM, note=TRUST + "Known finding: LinkCell takes radii beyond half the box."),
    dict(
        id="P30", title="Compute objects have the settings they were given",
        statement="Every compute object reports exactly the settings it was constructed with, defaults included, through its "
        "properties, its default query arguments and its repr, from which an equal object can be made; computing changes none of them. "
        "Values that make no sense (no bins, extents or ranges that are not positive, unknown modes, wrong numbers of dimensions) are refused.",
        over=["configurations"], quant="every combination of settings from the grid, before and after computing",
        why="Tests check one or two settings per class and compare repr with itself only.",
        files=["freud/density.py", "freud/pmft.py", "freud/order.py", "freud/environment.py", "freud/diffraction.py", "freud/msd.py",
               "freud/locality/BondHistogramCompute.h", "freud/util/Histogram.h"],
        mech=[("constructors and properties", "freud/density.py")], tech=ENUM, note=TRUST),
    dict(
        id="P31", title="Spherical-harmonic order parameters follow their definition",
        statement="Steinhardt's q_l, averaged q_l, w_l (normalized or not), qlm and system order, weighted and for several l at once, and "
        "SolidLiquid's bond products, connections and clusters equal their documented definitions for every box, system, list or "
        "kind of neighbors (filtered, weighted, lopsided, to farther images, none at all).",
        over=["inputs", "configurations"],
        quant="every combination of settings, l from 0 to 20, and list of neighbors, on every box and system of the grid",
        why="Tests check perfect crystals, where bonds, weights and averages cannot be told apart; and this build leaves the classes out.",
        files=["freud/order/Steinhardt.cc", "freud/order/SolidLiquid.cc", "freud/order/Wigner3j.cc", "freud/order.py"],
        mech=[("qlm accumulation and averages", "freud/order/Steinhardt.cc"), ("bond products", "freud/order/SolidLiquid.cc")],
        tech=ENUM, note=TRUST + FULL),
    dict(
        id="P32", title="Local descriptors and nematic tensors follow their definition",
        statement="LocalDescriptors gives, bond by bond of the list it used, the spherical harmonics of the bond in the frame of "
        "its mode (global, particle, neighborhood), and Nematic the tensor, its largest eigenvalue and a director belonging to it, of every list of directions.",
        over=["inputs", "configurations"],
        quant="every l_max, mode, sign of m, limit of neighbors and list; every multiset of directions",
        why="Tests compare shapes and a few harmonics of one random system; and this build leaves LocalDescriptors out.",
        files=["freud/environment/LocalDescriptors.cc", "freud/order/Nematic.cc", "freud/environment.py", "freud/order.py"],
        mech=[("frames of reference", "freud/environment/LocalDescriptors.cc"), ("tensor and eigenvalues", "freud/order/Nematic.cc")],
        tech=ENUM, note=TRUST + FULL),
    dict(
        id="P33", title="Environments match when their vectors can be paired",
        statement="EnvironmentCluster puts two bonded points into one cluster exactly when their environments' vectors (rotated, under registration) can be "
        "paired within the threshold; EnvironmentMotifMatch matches exactly the points whose environments can be paired with the motif. Reported environments are the neighbors' vectors.",
        over=["inputs", "histories"],
        quant="every assignment of six variants of nine motifs to three points, thresholds, registration; systems and repeated use of one object",
        why="Tests compare a few motifs; and this build leaves the classes out.",
        files=["freud/environment/MatchEnv.cc", "freud/environment/Registration.h", "freud/util/BiMap.h", "freud/environment.py"],
        mech=[("pairing", "freud/environment/MatchEnv.cc"), ("registration", "freud/environment/Registration.h")],
        tech=ENUM, note=TRUST + FULL + "Pairing is documented to be greedy: where only some pairings work either answer is accepted. "),
    dict(
        id="P34", title="Voronoi cells tile the box",
        statement="Voronoi cells' volumes add up to the box volume, each cell's polytope contains exactly the points nearest to its own, neighbors are "
        "the cells that share a face, symmetric, weighted by its area; ContinuousCoordination is its documented function of them. Computing again leaves earlier results as they were.",
        over=["inputs", "histories"],
        quant="every box and system of the grid; every sequence of systems on one object",
        why="Tests use lattices and random points in cubes; and this build leaves the classes out.",
        files=["freud/locality/Voronoi.cc", "freud/locality.py", "freud/order/ContinuousCoordination.cc", "freud/order.py"],
        mech=[("cells of periodic boxes", "freud/locality/Voronoi.cc"), ("coordination numbers", "freud/order/ContinuousCoordination.cc")],
        tech=ENUM, note=TRUST + FULL),
    dict(
        id="P35", title="The direct structure factor covers its grid and follows its definition",
        statement="StaticStructureFactorDirect averages the squared (or partial) density modes over exactly the reciprocal vectors of the box within [k_min, k_max), bin by bin "
        "and over accumulated frames; sampling takes a subset of them, as many as asked for; k_points are the vectors used.",
        over=["inputs", "configurations", "histories"],
        quant="every box, system, range, number of bins, sampling and sequence of up to three frames",
        why="Tests compare with other methods on random systems in cubes; and this build leaves the class out.",
        files=["freud/diffraction/StaticStructureFactorDirect.cc", "freud/diffraction/StaticStructureFactorDirect.h", "freud/diffraction.py"],
        mech=[("reciprocal vectors", "freud/diffraction/StaticStructureFactorDirect.cc")],
        tech=ENUM, note=TRUST + FULL + "The grid is the documented one: combinations of reciprocal vectors with coefficients not below 0."),
    dict(
        id="P36", title="General guarantees hold for the optional classes too",
        statement="For Steinhardt, SolidLiquid, Nematic, LocalDescriptors, the environment matching classes, Voronoi, ContinuousCoordination and "
        "StaticStructureFactorDirect: results do not depend on threads, earlier computations, the form of the input, the order or origin of points; "
        "they can be read from the first compute on and stay as read; arrays and neighbors that do not fit are refused; settings are those given.",
        over=["inputs", "schedules", "histories", "configurations"],
        quant="19 computations x the spaces of P01, P13, P14, P24, P27, P28, P29 and P30",
        why="Tests of these classes look at a few crystals, once, on one schedule; this sandbox's build leaves them out.",
        files=["freud/order.py", "freud/environment.py", "freud/locality.py", "freud/diffraction.py", "freud/environment/MatchEnv.cc",
               "freud/environment/export-MatchEnv.cc", "freud/order/Steinhardt.cc", "freud/locality/Voronoi.cc"],
        mech=[("qlm over threads", "freud/order/Steinhardt.cc"), ("environments", "freud/environment/MatchEnv.cc"), ("bonds of cells", "freud/locality/Voronoi.cc")],
        tech="Stateless exploration of schedules and exhaustive enumeration of histories and inputs on the real library",
        note=TRUST + FULL + "Registration draws random vectors, so that only readability and lifetime are checked with it. "),
    dict(
        id="P37", title="A periodic system and its replicas are the same system",
        statement="Repeating a periodic system any number of times along the directions of its box (points, query points, orientations and values with it) repeats "
        "the neighbors of each point, every per-point and per-bond result and (in boxes without tilt) every density grid, multiplies histogram counts and bond order diagrams, and leaves averages (RDF, "
        "correlations, PMFTs, order parameters, MSD) as they are, for radii up to half the original box; also when there are more than 65536 points.",
        over=["inputs", "configurations"], quant="every number of replicas from 1 to 3 per direction, and four shapes beyond 65536 points, x 38 computations and queries x 4 systems",
        why="Tests use at most a few thousand points, and never compare systems of different sizes.",
        files=["freud/locality/AABBTree.h", "freud/locality/AABBQuery.cc", "freud/locality/LinkCell.cc", "freud/locality/NeighborList.cc", "freud/density/RDF.cc",
               "freud/density/GaussianDensity.cc", "freud/cluster/Cluster.cc", "freud/util/Histogram.h", "freud/box/Box.h"],
        mech=[("trees of many points", "freud/locality/AABBTree.h"), ("cells", "freud/locality/LinkCell.cc"), ("normalizations", "freud/density/RDF.cc")],
        tech=ENUM, note=TRUST),
    dict(
        id="P38", title="Directions are alike: exchanging or mirroring the axes moves results with them",
        statement="Exchanging the axes of a system (its box, points, query points, orientations and counts of bins per axis), reversing them, or both, moves every result in the same way and changes nothing else: "
        "neighbors, distances, RDFs, correlations, densities, clusters and their shapes, order parameters (hexatic ones conjugated by a mirror), grids, structure factors, MSDs, images, buffers and box operations follow "
        "the axes, in boxes of unequal sides, periodic or not along each, and tilted ones as far as reversals go; where orientations enter, under rotations.",
        over=["inputs", "configurations"], quant="all 48 (in 2D 8) signed permutations of the axes x 45 computations, lists and box operations x 9 boxes; all 8 (4) reversals in tilted boxes",
        why="Tests use cubic boxes and a few fixed systems, in which the axes cannot be told apart.",
        files=["freud/box/Box.h", "freud/density/GaussianDensity.cc", "freud/density/SphereVoxelization.cc", "freud/locality/LinkCell.cc", "freud/locality/AABBQuery.cc",
               "freud/locality/PeriodicBuffer.cc", "freud/cluster/ClusterProperties.cc", "freud/diffraction.py", "freud/msd.py"],
        mech=[("the box", "freud/box/Box.h"), ("images of points", "freud/locality/AABBQuery.cc"), ("grids", "freud/density/GaussianDensity.cc")],
        tech=ENUM, note=TRUST),
]

NA = [
    dict(
        id="P84", title="Compute time grows as documented with the number of points",
        statement="Cell-based neighbor queries take time proportional to the number of points at fixed density.",
        over=["inputs"], quant="every system size", why="Tests do not measure time.",
        files=["freud/locality/LinkCell.cc"], mech=[("cell lists", "freud/locality/LinkCell.cc")],
        reason="A statement about asymptotic running time: enumerating bounded executions cannot decide it."),
]
