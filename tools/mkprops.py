import json
P=[]
def p(id,title,st,over,qt,why,files,mech,observe=None,state=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if observe: a['observe_at']=observe
    if state: a['state']=state
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,anchors=a))
PO='casadi_extras/collocation/polynomial.py'; BU='casadi_extras/collocation/butcher.py'; PP='casadi_extras/collocation/piecewise_poly.py'
CO='casadi_extras/collocation/collocation.py'; DA='casadi_extras/dae_model.py'; IN='casadi_extras/inequality.py'; ST='casadi_extras/structure3.py'; TR='casadi_extras/system_trajectory.py'

p('C01','Interpolation is exact for polynomials at every query point',
 'For any set of n distinct nodes (sorted or not, any location and scale) and any query points, the interpolation matrix of a polynomial basis has one row per query point, and applying it to the node values of any polynomial of degree below n returns that polynomial\'s values at the query points; a query point that coincides with a node returns exactly the value given at that node. The two stand-alone interpolators (power-basis and barycentric) return the same values for every matrix of node values, row by row.',
 ['inputs'],'all n >= 1, all n distinct real nodes in any order, all finite query vectors (inside, outside, at and close to nodes), all node-value matrices',
 'The tests compare two interpolators on one random grid; exactness is an identity over all node sets, all query points and all polynomials, with a separate branch for query points that hit a node.',
 [PO],[('barycentric weights','PolynomialBasis.__init__'),('interpolation matrix','PolynomialBasis.interpolationMatrix'),('interpolators','polynomialInterpolator, barycentricInterpolator')],
 'matrix/array returned by the call')
p('C02','Differentiation matrices differentiate polynomials exactly',
 'For any n distinct nodes the differentiation matrix of a basis maps the node values of any polynomial of degree below n to the values of its derivative at the nodes. Chebyshev nodes of order n are n+1 points (1-cos(k*pi/n))/2 ascending from 0 to 1, every other scheme\'s nodes are 0 followed by the scheme\'s points, and the Chebyshev grid helper returns the nodes mapped affinely onto [t0, tf] together with the derivative matrix with respect to the mapped variable.',
 ['inputs'],'all n >= 1, all n distinct real nodes in any order, all orders and all intervals t0 < tf',
 'Tests differentiate one function on one grid with a tolerance; the identity must hold for all node sets, including unsorted, scaled and single-node ones.',
 [PO],[('differentiation matrix','PolynomialBasis.__init__'),('node generation','collocationPoints'),('grid helper','cheb')],'matrix D and grid returned')
p('C03','Basis polynomials are the cardinal polynomials and compose linearly',
 'For any n distinct nodes the k-th polynomial of a basis has degree n-1, equals 1 at node k and 0 at every other node. Composing an m-by-n coefficient matrix returns, for each row, the polynomial that takes the row\'s entries at the nodes, and never modifies the basis.',
 ['inputs'],'all n >= 1, all distinct nodes in any order, all m-by-n coefficient matrices, repeated calls on one basis',
 'No test evaluates the basis polynomials; a product or sum over the wrong index range is invisible on one small symmetric grid.',
 [PO],[('Lagrange polynomials','PolynomialBasis.__init__'),('composition','PolynomialBasis.compose')],'polynomials returned')
p('C04','Collocation Butcher tableaus integrate polynomials exactly',
 'For any s distinct collocation nodes the generated tableau has c equal to the nodes, and its matrix and weights integrate every polynomial of degree below s exactly from 0 to each node and from 0 to 1 respectively. Building a tableau with a non-square matrix, or with weights or nodes of a different dimension or length than the matrix, is rejected; accepted data is exposed unchanged.',
 ['inputs'],'all s >= 1, all s distinct real nodes in any order, all named schemes, all combinations of array shapes passed to the constructor',
 'Tests compare a few published tableaus; exactness is an integral identity over all node sets and all polynomials.',
 [BU],[('tableau construction','butcherTableuForCollocationPoints, butcherTableuForCollocationMethod'),('shape validation','ButcherTableau.__init__')],'A, b, c of the returned tableau')
p('C05','Piecewise evaluation uses the right piece with the right local time',
 'Evaluating a piecewise polynomial at t returns, one column per query point and in query order, the value of the piece whose interval contains t: at an interior boundary the piece to the right is used for right continuity and the piece to the left for left continuity. Points outside the range are extrapolated with the first or last piece, and any continuity option other than left or right is rejected.',
 ['inputs'],'all ascending boundary lists, all coefficient matrices, all bases, all query scalars and vectors including every boundary, and both continuity options',
 'Boundary hits of every interval, both sides, unequal interval lengths and extrapolation form an infinite product space; the tests sample a few points of a short list.',
 [PP],[('interval selection and local coordinate','PiecewisePoly.__call__'),('constructor checks','PiecewisePoly.__init__')],'returned value matrix')
p('C06','Piecewise derivative and extracted polynomials agree with the function',
 'On every interval the derivative of a piecewise polynomial is the piecewise polynomial whose value is the time derivative of the original (interval lengths may differ), with the same interval boundaries and without changing the original. The polynomials extracted for interval n satisfy p_i(s) = value of component i at (start of interval n) + s for every s, for any coefficients including constant, zero or integer ones.',
 ['inputs','histories'],'all ascending boundaries, all coefficient matrices (including degenerate degree), all bases, all intervals, repeated extraction from one object',
 'Tests use one interval grid and generic coefficients; degenerate degrees and unequal lengths change the length of coefficient arrays.',
 [PP,PO],[('derivative','PiecewisePoly.derivative'),('extraction','PiecewisePoly.poly')],'returned functions/polynomials')
p('C07','Discretisation covers every interval with bounded steps and exact values',
 'For any positive step, discretising a piecewise polynomial returns sample times in ascending order that contain both end points of every interval, with consecutive samples within an interval never further apart than the step, together with the value of that interval\'s polynomial at each sample.',
 ['inputs'],'all ascending boundaries, all coefficients, all bases and all step sizes, including steps larger than an interval and steps dividing it exactly',
 'The number of samples depends on the ratio of step and interval length; tests check one ratio.',
 [PP],[('sampling','PiecewisePoly.discretize')],'returned (x, y)')
p('C08','Collocation scheme integrates states by the Runge-Kutta formula',
 'For every state dimension, number of intervals N and order M, the scheme\'s state at collocation point j of interval n is the interval\'s start state plus interval length times the sum over k of A[j,k] times the state derivative at point k of the same interval, and the continuity equations state that start state plus length times the b-weighted sum of derivatives equals the next start state. Collocation times are t_n + h_n*c_j, inputs at collocation points are the interval\'s input, and the scheme exposes these in interval-major order.',
 ['inputs','configurations'],'all time grids (unequal steps), all orders, named methods, all dimensions and all values of the symbolic states and derivatives',
 'The equations are assembled through Kronecker products; tests integrate a few ODEs with equal or short grids where block order mistakes cancel.',
 [CO],[('X, xf, tc, U assembly','CollocationScheme.__init__'),('evaluation','CollocationScheme.evalX'),('accessors','CollocationScheme properties')],'x, X, K, U, tc and the continuity part of eq')
p('C09','Collocation equations evaluate the model at each point with its own data',
 'The collocation equations contain, for each collocation point, the model residual evaluated with that point\'s state derivative, integrated state, algebraic state, interval input, parameter, collocation time and time-dependent-parameter value, in point order, whether or not expansion or parallel maps are requested. With repeated parameters each point has its own parameter column and the equations additionally state that neighbouring columns are equal; otherwise one parameter is shared and no such equations exist.',
 ['inputs','configurations'],'all models (implicit and semi-explicit), grids, orders, methods, with/without time-dependent parameters, repeated parameters on/off, all values of the unknowns',
 'Configurations multiply (parameters repeated or not, tdp or not, implicit or not); the tests exercise a handful through a solver that hides row order.',
 [CO],[('map call and equation struct','CollocationScheme.__init__'),('combination','CollocationScheme.combine')],'eq struct of the scheme')
p('C10','Scheme quadratures accumulate exactly the Runge-Kutta quadrature',
 'Quadrature at the first interval boundary is zero and at boundary n+1 equals its value at boundary n plus interval length times the b-weighted sum of quadrature rates at that interval\'s points; quadrature at each collocation point is the value at its interval start plus length times the A-weighted sum of rates of that interval.',
 ['inputs','configurations'],'all grids, orders, models with any number of quadrature states, all values of the unknowns',
 'A recurrence over intervals; a wrong slice or stale accumulator shows only for three or more unequal intervals with non-constant rates.',
 [CO],[('q and Q assembly','CollocationScheme.__init__')],'q, Q and quad of the scheme')
p('C11','Integrator outputs solve the scheme equations from the given start',
 'The integrator returns interval-boundary states, derivatives and algebraic states that satisfy all collocation and continuity equations with the first boundary state equal to the supplied start; the reported final states, collocation-point states, quadratures and final quadrature are those of exactly that solution, and the reported times are the scheme\'s collocation times.',
 ['inputs','configurations'],'all models, grids, orders, methods, start values, inputs and parameters for which the root finder converges',
 'Tests compare end values of a few ODEs with tolerance; consistency of all nine outputs for all grids is not sampled.',
 [CO],[('root finding set-up and outputs','CollocationIntegrator.__init__'),('trajectory output','CollocationIntegrator.integrate')],'named outputs of the integrator')
p('C12','Collocation trajectory passes through states and has collocated slopes',
 'For boundary states and derivatives satisfying the scheme, the state trajectory built from them equals the boundary state at each interval start, equals the integrated state at every collocation point, has at every collocation point a time derivative equal to the given state derivative, and reaches the next boundary state at each interval end.',
 ['inputs','configurations'],'all grids, orders, methods with distinct nonzero nodes, all states and derivatives',
 'The slope property is an identity about polynomials built from the tableau; tests only plot or compare values at coarse tolerance.',
 [CO,PP],[('coefficient assembly','CollocationScheme.piecewisePolyX')],'trajectory evaluated at any time')
p('C13','Differential-quadrature grid, derivative and integral are consistent',
 'For Chebyshev and Radau grids on any ascending interval boundaries, the quadrature grid lists each interval\'s nodes in ascending order with shared boundaries once; its derivative maps the node values of any continuous piecewise polynomial of the given order to the derivative at every node but the last (using the right-hand interval at a shared boundary); and its integral maps such derivative values back to the function values minus the initial value at all nodes but the first.',
 ['inputs'],'all ascending boundaries with any number of intervals and lengths, all orders >= 1, all value matrices',
 'The tests of this class are disabled; block offsets and shared boundary columns only matter with several unequal intervals.',
 [CO],[('grid and block matrix','Pdq.__init__'),('derivative/integral','Pdq.derivative, Pdq.integral'),('accessors','Pdq properties')],'collocation points and returned matrices')
p('C14','Differential-quadrature interpolation and trajectories hit their data',
 'Interpolators of a differential-quadrature grid return on each interval the polynomial through the data belonging to that interval: all nodes for "both", all but the first node for "left", all but the last for "right", with the corresponding continuity at boundaries, extrapolating with the end intervals; wrong data widths and unknown options are rejected. A system trajectory returns state, algebraic state and input by these rules, and expanding an interval input repeats each column once per node of its interval.',
 ['inputs'],'all ascending boundaries, orders, data matrices, query points (including all boundaries and nodes) and the three continuity options',
 'Only one trajectory test exists; left continuity is never exercised.',
 [CO,TR],[('interpolator','_PdqInterpolator, Pdq.interpolator'),('trajectory','SystemTrajectory'),('input expansion','Pdq.expandInput')],'returned matrices')
p('C15','Malformed models are rejected and well-formed ones exposed unchanged',
 'Constructing a model raises a ValueError exactly when x, z, u or xdot-type data violates its rules: x, z, u, ode, alg, xdot and dae must be columns, x, z, u, p, t and tdp purely symbolic, t scalar, ode as long as x, alg as long as z, xdot as long as x and dae as long as x plus z. Otherwise every supplied quantity is returned unchanged, omitted ones are empty (time: a scalar symbol), and the reported dimensions are the element counts.',
 ['inputs','configurations'],'all combinations of present/absent arguments and all shapes / symbolic-ness of each',
 'Only valid models appear in tests; each rule has a reject side that no test exercises.',
 [DA],[('validation','Dae.__init__, SemiExplicitDae.__init__, ImplicitDae.__init__'),('accessors','Dae properties')],'exception or constructed model')
p('C16','Model conversions preserve the equations',
 'Converting a semi-explicit model to implicit form yields the residual (xdot - ode, alg) over the same variables and quadratures; converting an implicit model returns it unchanged. Functions created from a model compute the named quantities of the named inputs in the given order, and connecting models in parallel yields a model whose variables and equations are the members\' ones stacked in order.',
 ['inputs','programs'],'all models, all dimension combinations, all input/output name lists, all numbers of parallel members',
 'Row order and sign mistakes are masked by solvers; parallel connection has no test at all.',
 [DA],[('implicit conversion','SemiExplicitDae.makeImplicit, ImplicitDae.makeImplicit'),('function creation','Dae.createFunction'),('parallel connection','parallel')],'returned model / function')
p('C17','Inequality bounds always match their expression and concatenate in order',
 'An inequality always has lower and upper bounds (and nominal value if given) of the shape of its expression, with missing bounds being minus/plus infinity, mismatching shapes rejected, and given numbers kept; a bounded variable is symbolic with the shape of its nominal value. Vertical concatenation of a list or a dictionary of inequalities stacks expression, bounds and nominal values consistently, entry by entry in order, also when some have no nominal value.',
 ['inputs'],'all expression shapes, all combinations of given/missing bounds and nominal, scalars, numpy, DM and structured bounds, all lists and dictionaries of inequalities',
 'Tests cover single shapes; consistency across all combinations of defaults and containers is not sampled.',
 [IN,ST],[('construction','Inequality.__new__, BoundedVariable.__new__'),('concatenation','vertcat')],'fields of the resulting inequality')
p('C18','Structure layout is a gap-free bijection in declared order',
 'For any structure, the elements of all primitive entries (in declared or given order, repetitions in row-major index order, tuple groups interleaved per outermost repetition, nested structures in place, matrix elements column-major over their sparsity) occupy the positions 0..size-1 exactly once, and the index matrix of an entry holds the position of each element. Looking up the canonical index or label of a flat position is the inverse of that map, and the index of a whole sub-structure lists the positions of its elements in order.',
 ['inputs','programs'],'all structure declarations: nested to any depth, repeated in several dimensions, sparse and symmetric entries, tuple groups and explicit orders',
 'Tests check a few example structures; the bijection is a global invariant over recursively defined declarations.',
 [ST],[('layout construction','CasadiStructure.__init__'),('traversal','StructEntry.traverseCanonicalIndex, Structure.traverseCanonicalIndex, listindices, combine, intersperse, canonicalIndexAncestors'),('inverse lookup','CasadiStructure.getCanonicalIndex')],'index maps, labels, size')
p('C19','Structured reads and writes obey get/put laws',
 'Writing an element, entry, or matrix slice of a mutable structured vector and reading the same index returns the written value, leaves every element outside the index unchanged, and updates the flat vector at exactly the positions the layout assigns; reading returns exactly those positions in the shape of the entry. Reading never modifies anything, and data of a wrong length is rejected.',
 ['inputs','histories'],'all structures, all mutable structured types (numeric and symbolic), all indices (integers negative or positive, slices, lists, matrix sub-indices), all sequences of writes and reads',
 'The laws quantify over structures, indices and histories of writes; tests use fixed structures and single writes.',
 [ST],[('dispatch','GetterDispatcher, SetterDispatcher, performExtraIndex, correct_vector_indexing'),('containers','MatrixStruct, DMStruct, SXStruct, MXStruct, Prefixer')],'element reads and the flat vector','flat master vector of a structured object')
p('C20','Power indices select and shape exactly what they denote',
 'A power index denotes an ordered selection: integers (negative counting from the end) pick one repetition, slices and lists pick several giving nested lists in that order, missing trailing indices mean everything, an ellipsis ranges over the entries in key order, dictionaries, sets and the nested-dictionary marker give dictionaries over the corresponding keys, and a callable is applied to the selection made by the rest of the index. Writing distributes the payload over the same selection (single values and repeated() broadcast, lists and dictionaries element by element), and invalid keys or exhausted indices raise an error.',
 ['inputs','programs'],'all structures and all power indices and payloads, nested to any depth',
 'The index language is recursive; tests enumerate a few expressions.',
 [ST],[('traversal','Structure.traverseByPowerIndex, StructEntry.traverseByPowerIndex, payloadUnpack, canonical, vec'),('flat indices','CasadiStructure.FlatIndexDispatcher, IMDispatcher')],'value returned by indexing, or the flat vector after assignment')
p('C21','Structured symbols and expressions match their concatenation',
 'For symbolic structures the flat vector has exactly the structure\'s size, is purely symbolic, and each entry read back is the part of the flat vector the layout assigns to it; structures built from expressions have a flat vector that is the concatenation of the (column-major, nonzero) expressions in layout order, also after replacing an entry. Declarations with the wrong kind of entry (expressions in symbolic structures, missing expressions, wrong shapes on replacement) are rejected.',
 ['inputs','histories'],'all structures for symbolic SX/MX and expression SX/MX types, all entry expressions including lists, matrices and sparse ones, and replacements of entries',
 'Agreement between two internal representations (flat vector and per-entry objects) must hold for all declarations and after every write.',
 [ST],[('symbolic structures','ssymStruct, msymStruct, VertsplitStructure.buildMap'),('expression structures','MXVeccatStruct, SXStruct, MXStruct')],'entry reads and flat vector')
p('C22','Matrix views address the block selected by their structures',
 'Viewing an n-by-m matrix through one or two structures (repeated columns, square, product, repeated squares) reads and writes exactly the rows and columns that the structures\' layouts assign to the given entries, for the given repetition; the underlying matrix reflects every write and nothing else changes. Splitting a matrix by a structure returns for each entry the entry of each column side by side, and matrices of unsuitable size are rejected.',
 ['inputs','histories'],'all pairs of structures, all dense matrices of matching and non-matching size, all block indices and writes',
 'Views re-index a reshaped copy; errors show only for rectangular blocks or several repetitions.',
 [ST],[('views','CasadiStructureDerivable.repeated/squared/product/squared_repeated/parseMatrix'),('storage','DataReference*'),('delegated indices','delegation, IndexDelegater, FlatIndexDelegater')],'values read, underlying matrix')
p('C23','Symmetric entries read back symmetric and store each pair once',
 'A symmetric entry stores only its upper triangle and always reads as the full symmetric matrix; any element or block of it reads as that element or block of the full symmetric matrix. Writing a full symmetric matrix, or a scalar to an element pair, is read back at both mirrored positions and changes nothing else; non-square symmetric declarations are rejected.',
 ['inputs','histories'],'all sizes of symmetric entries, plain or repeated, all sub-indices and writes',
 'Only whole-matrix access appears in tests; sub-indices address the stored triangle instead of the symmetric matrix.',
 [ST],[('symmetric get/set','GetterDispatcher, SetterDispatcher, performExtraIndex'),('declaration','CasadiStructEntry.__init__')],'values read and flat vector')
p('C24','Entry declarations are validated and normalised',
 'Declaring an entry yields the repetition dimensions, shape and nested structure it was given (an integer shape is a column, no shape is a scalar, expressions give their own shape and list nesting, structure shapes give the structures\' sizes). Unknown keywords, missing or extra positional arguments, forbidden combinations, non-integer repetitions, invalid shapes, unknown types, duplicate names and invalid orders are rejected.',
 ['inputs','configurations'],'all keyword combinations and values accepted by the declaration interface',
 'Rejection paths are not exercised by tests and combinations are many.',
 [ST],[('entry validation','CasadiStructEntry.__init__'),('entry lists','EntryList.__init__'),('order validation','Structure.__init__')],'exception or the declared entry')
p('C25','Structures survive pickling and saving',
 'Pickling or saving a structure or numeric structured vector and loading it again yields an object with the same keys, layout, labels and numeric data, so that every index reads the same value before and after.',
 ['inputs','histories'],'all picklable structures (nested, repeated, sparse, ordered) and all numeric contents',
 'The test pickles one flat structure; state restoration re-runs construction and must reproduce order and layout for all declarations.',
 [ST],[('state','CasadiStructure.__getstate__/__setstate__, CasadiStructured.__getstate__, DMStruct.__getstate__/__setstate__'),('files','save, struct_load')],'reloaded object')
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
open('/verif/properties.jsonl','w').write('\n'.join(json.dumps(x) for x in P)+'\n')
print(len(P))
