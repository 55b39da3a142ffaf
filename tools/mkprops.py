import json
S="src/include/"
def P(id,title,statement,over,text,why,files,state,mech,observe,hook=None):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[S+f for f in files],state=[dict(name=a,meaning=b,where=S+c) for a,b,c in state],
      mechanism=[dict(name=a,where=S+b) for a,b in mech],observe_at=observe,hook_needed=hook))
props=[
P("C01","Interpolation reproduces every data point",
  "For every admissible grid (any mix of periodic and non-periodic axes, uniform ranges or explicit increasing coordinates, any spline order, every axis with at least the minimum number of points) and any data values, the constructed function evaluated at a grid node returns the datum supplied for that node. On a periodic axis the function takes the first datum again one period later, and in the build mode that accepts a closing point on periodic axes that last point is ignored.",
  ["inputs","configurations"],"all data values, all axis lengths, all increasing coordinates, all periodic/uniform mixes, both periodic-data conventions, both storage layouts; exact real arithmetic",
  "The tests interpolate a handful of fixed arrays (13 points; 5x5; 5x6x7) at one order or two and mostly compare off-grid values with pre-computed numbers; other lengths, orders, coordinates and the build modes the test suite never compiles are not reached.",
  ["InterpolationTemplate.hpp","Interpolation.hpp","BandLU.hpp","BSpline.hpp"],
  [("control points","weights solved per axis","InterpolationTemplate.hpp"),("knots","knot vector per axis","BSpline.hpp")],
  [("create_knot_vector_","Interpolation.hpp"),("build_solver_","InterpolationTemplate.hpp"),("solve_for_control_points_","InterpolationTemplate.hpp"),("compute_impl / solve_in_place_impl","BandLU.hpp")],
  ["InterpolationFunction::operator() at grid nodes"]),
P("C02","Spline value is the tensor-product B-spline of its knots and control points",
  "For every knot sequence, set of control points, coordinate and position hint, the value of a spline is the sum of its control points weighted by the products of the Cox-de Boor basis functions of its order; a wrong hint never changes the value. At the right end of a non-periodic axis the last polynomial piece is used, and outside the range the value is the polynomial continuation of the first or last piece.",
  ["inputs","configurations"],"all non-decreasing knot sequences with non-empty interior segments, all control points, all coordinates (inside, on knots, on both ends, outside), all hints in the valid index range, both storage layouts; exact real arithmetic",
  "The tests evaluate a few splines at about ten coordinates each, never on a knot, at the right end, or with a deliberately wrong hint, and compile one of the two storage layouts.",
  ["BSpline.hpp"],[("knots_","knot vectors","BSpline.hpp"),("control_points_","control points (plain or cell layout)","BSpline.hpp")],
  [("base_spline_value","BSpline.hpp"),("get_knot_iter","BSpline.hpp"),("operator()","BSpline.hpp"),("generate_cell_layout","BSpline.hpp")],
  ["BSpline::operator()","InterpolationFunction::operator()"]),
P("C03","Derivatives are the exact derivatives of the spline",
  "For every spline, coordinate and tuple of derivative orders, the returned (mixed partial) derivative is the exact derivative of the polynomial piece whose value the spline returns at that coordinate. Order zero along an axis leaves that axis undifferentiated, and an order larger than the spline order gives exactly zero.",
  ["inputs","configurations"],"all knots, control points, coordinates and derivative-order tuples, both storage layouts; exact real arithmetic",
  "Only derivative tuples such as 1, 2, (1,1), (2,0), (2,1), (1,0,3) are sampled, at ten points of one spline each.",
  ["BSpline.hpp","Interpolation.hpp"],[],[("derivative_at","BSpline.hpp"),("derivative_helper","Interpolation.hpp")],["BSpline::derivative_at","InterpolationFunction::derivative"]),
P("C04","Periodic axes: value and derivatives repeat with the period everywhere",
  "On a periodic axis, moving a coordinate by any integer number of periods, in either direction and from any starting point including the ends of the base interval, changes neither the value nor any derivative, and leaves the other axes alone.",
  ["inputs"],"all coordinates, all integer multiples of the period (both signs), all orders, mixes of periodic and non-periodic axes; exact real arithmetic",
  "Tests evaluate periodic functions almost only inside the base interval; exact ends and coordinates several periods below are not sampled.",
  ["BSpline.hpp","Interpolation.hpp"],[("range_","base interval of each axis","BSpline.hpp"),("periodicity_","periodic flag","BSpline.hpp")],
  [("get_knot_iter (coordinate reduction)","BSpline.hpp")],["InterpolationFunction::operator()","InterpolationFunction::derivative"]),
P("C05","Checked access throws exactly for coordinates outside the data range",
  "The bounds-checked value and derivative calls throw a domain error if and only if some coordinate on a non-periodic axis lies outside the closed interval from the first to the last supplied coordinate of that axis; otherwise they return exactly what the unchecked calls return. Coordinates on periodic axes never cause an error.",
  ["inputs","configurations"],"all coordinates including both end points, all orders, all axes, uniform and explicit coordinates",
  "One call at one out-of-range coordinate of one cubic function is tested.",
  ["Interpolation.hpp","BSpline.hpp"],[("range_","closed interval per axis","BSpline.hpp")],[("boundary_check_","Interpolation.hpp"),("load_knots","BSpline.hpp")],["InterpolationFunction::at","InterpolationFunction::derivative_at"]),
P("C06","Band solver: the returned vector solves the banded linear system",
  "For every square band matrix of any size and bandwidths whose elimination meets no zero pivot, and every right-hand side, factorising the matrix and solving returns the vector x with A x = b, whether the right-hand side is a container, pointer or iterator. Factorising a caller's matrix does not change that matrix.",
  ["inputs"],"all sizes n >= 1, all band values without zero pivots, all right-hand sides, lower and upper bandwidths 0..4; exact real arithmetic",
  "One 64x64 symmetric tridiagonal matrix is tested.",
  ["BandLU.hpp","BandMatrix.hpp"],[("lu_store_","in-place LU factors","BandLU.hpp")],[("BandLU<BandMatrix>::compute_impl","BandLU.hpp"),("BandLU<BandMatrix>::solve_in_place_impl","BandLU.hpp")],["BandLU::solve","BandLU::compute"]),
P("C07","Cyclic band solver: the returned vector solves the periodic system",
  "For every square band matrix with wrap-around corner bands whose elimination meets no zero pivot, and every right-hand side, factorising the matrix and solving returns the vector x with A x = b; fill-in created by the elimination is never lost.",
  ["inputs"],"all sizes n > lower+upper bandwidth, all values without zero pivots, all right-hand sides; exact real arithmetic",
  "Three 64x64 circulant matrices with constant diagonals are tested.",
  ["BandLU.hpp","BandMatrix.hpp"],[("right/bottom side bands","fill-in storage","BandMatrix.hpp")],[("BandLU<ExtendedBandMatrix>::compute_impl","BandLU.hpp"),("BandLU<ExtendedBandMatrix>::solve_in_place_impl","BandLU.hpp")],["BandLU::solve"]),
P("C08","Band matrix storage: elements are independent and the product is A x",
  "Writing one element of a band matrix or of a wrap-around band matrix changes exactly that element and every element reads back as last written (zero if never written). The matrix-vector product equals the mathematical product of those elements with the vector, for symmetric and non-symmetric matrices alike.",
  ["inputs"],"all sizes, bandwidths, element positions inside the bands, element values and vectors",
  "The product is only used with symmetric or circulant 64x64 matrices, and element independence is not tested.",
  ["BandMatrix.hpp","Mesh.hpp"],[("bands_, right_side_bands_, bottom_side_bands_","element storage","BandMatrix.hpp")],[("operator()","BandMatrix.hpp"),("side_bands_val","BandMatrix.hpp"),("operator*","BandMatrix.hpp")],["BandMatrix::operator()","BandMatrix::operator*","ExtendedBandMatrix::operator*"]),
P("C09","Mesh indexing is a row-major bijection and axis iteration visits one line",
  "For every mesh shape, the map from multi-indices to storage positions is the row-major bijection onto 0..size-1 and the reverse map is its inverse. The per-axis iterators starting at a multi-index visit exactly the elements that differ from it along that axis only, once each and in order, and iterator arithmetic agrees with stepping.",
  ["inputs"],"all shapes whose element count fits in the index type, all multi-indices, all axes, dimensions 1..4",
  "One 10x20x30 mesh is probed at one index and three lines.",
  ["Mesh.hpp"],[("dim_size_","shape","Mesh.hpp"),("storage_","elements","Mesh.hpp")],[("indexing / indexing_safe / dimwise_indices / dim_acc_size","Mesh.hpp"),("skip_iterator","Mesh.hpp"),("begin/end(dim, indices)","Mesh.hpp")],["Mesh::operator()","Mesh::iter_indices","Mesh::begin/end"]),
P("C10","Evaluation and construction never touch memory outside their objects",
  "For every admissible grid and every finite coordinate (inside, on the ends, outside, any number of periods away), constructing the function and evaluating values, derivatives and pre-computed evaluators reads and writes only initialised elements inside the library's own arrays.",
  ["inputs","configurations"],"all admissible shapes, orders, coordinates, hints and derivative orders, both storage layouts; exact real arithmetic",
  "The sanitizer build runs only the sampled inputs; accesses at range ends, with fill-in, on minimal grids and in the layouts that are not compiled are not executed.",
  ["BSpline.hpp","Interpolation.hpp","InterpolationTemplate.hpp","BandLU.hpp","BandMatrix.hpp","Mesh.hpp"],[],[("get_knot_iter","BSpline.hpp"),("operator() / derivative_at / generate_cell_layout","BSpline.hpp"),("build_solver_","InterpolationTemplate.hpp")],["every load and store"]),
P("C11","Pre-computed evaluators and storage layouts give the same value",
  "An evaluator pre-computed for a coordinate from a template, applied to any function that the template produces, returns that function's value at the coordinate, for every order, dimension and mix of periodic axes. Compiling with the redundant cell storage layout or with the plain one gives the same function.",
  ["inputs","configurations"],"all coordinates, shapes, orders, periodic mixes, data values; exact real arithmetic",
  "The evaluator test is a benchmark that checks nothing; one 2-D non-periodic case is in the spline test, and only one layout is compiled.",
  ["BSpline.hpp","Interpolation.hpp","InterpolationTemplate.hpp"],[("control_points_","cell layout","BSpline.hpp")],[("pre_calc_coef","BSpline.hpp"),("calculate_cell_dim_from_knots","BSpline.hpp"),("generate_cell_layout","BSpline.hpp"),("eval_proxy","Interpolation.hpp")],["InterpolationFunctionTemplate::eval_proxy"]),
P("C12","Templates are reusable: each result depends only on grid and data",
  "A template (or a copy of it) may be used any number of times, and every function it produces, by any of the ways of producing one, equals the function constructed directly from the same grid and data. Producing or evaluating a function changes neither the template, the input data nor previously produced functions.",
  ["histories","configurations"],"all sequences of interpolations, copies, moves and evaluations, all data, language modes C++11 and C++17",
  "The template test applies one template to consecutive random data and checks approximate values only, in one language mode.",
  ["InterpolationTemplate.hpp","Interpolation.hpp"],[("solvers_","factorised systems","InterpolationTemplate.hpp"),("base_","function without weights","InterpolationTemplate.hpp")],[("interpolate overloads","InterpolationTemplate.hpp"),("EitherSolver","InterpolationTemplate.hpp")],["InterpolationFunctionTemplate::interpolate"]),
P("C13","Multi-threaded construction computes the same function as serial construction",
  "With multi-threading enabled, the work is split into blocks that together cover every grid line exactly once, no two blocks touch the same element, and the constructing call returns only after all blocks are complete; so for every schedule the result is the one the serial build computes.",
  ["schedules","inputs"],"all shapes, all numbers of lines, all orders in which the blocks may run",
  "The multi-threaded build runs on a few shapes under whatever schedule happens, with wide tolerances.",
  ["InterpolationTemplate.hpp","BSpline.hpp"],[("weights / weights_tmp","shared arrays","InterpolationTemplate.hpp")],[("block partition in solve_for_control_points_","InterpolationTemplate.hpp"),("block partition in generate_cell_layout","BSpline.hpp")],["InterpolationFunction built with INTP_MULTITHREAD"]),
P("C14","Knots follow the data: range, order, and uniform equals explicit coordinates",
  "For every grid axis the knot sequence is non-decreasing with non-empty segments over the data range, has the number of knots that the order and data require, and on a non-periodic axis starts and ends exactly at the first and last coordinate. Supplying evenly spaced coordinates explicitly gives the same knots, hence the same function, as supplying the range.",
  ["inputs"],"all axis lengths, all ranges, all increasing coordinate sequences, orders 0..5, periodic and not; exact real arithmetic",
  "Knots are never inspected; only one or two grids of each kind are built.",
  ["Interpolation.hpp","BSpline.hpp"],[("knots_","knot vector","BSpline.hpp")],[("create_knot_vector_ (both overloads)","Interpolation.hpp"),("load_knots","BSpline.hpp")],["spline().knots_begin/knots_end/knots_num/range"]),
P("C15","Thread pool: every submitted task runs exactly once and shutdown terminates",
  "Every task handed to the pool is executed exactly once by some worker and its future becomes ready, whatever the interleaving of submitters, workers and stealing. Destroying the pool always returns.",
  ["schedules"],"all interleavings of submitters, workers and shutdown",
  "Tests use the pool under whatever schedule happens.",
  ["DedicatedThreadPool.hpp"],[("main_queue, worker_queues","pending tasks","DedicatedThreadPool.hpp"),("should_terminate","shutdown flag","DedicatedThreadPool.hpp")],[("queue_task / try_pop_from_main / try_steal_from_others / thread_loop","DedicatedThreadPool.hpp")],["std::future of each task","~DedicatedThreadPool"]),
]
with open('/verif/properties.jsonl','w') as f:
    for p in props: f.write(json.dumps(p)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in props:
    jsonschema.validate(p,s); assert p['statement'].count('. ')<=2,p['id']
