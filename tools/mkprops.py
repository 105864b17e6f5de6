import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":observe or [],"state":state or [],"hook_needed":None}})
W=["legendre","chebyshev","jacobi","laguerre","hermite"]
p("C01","A FiniteAboveNegOneF64 always holds a finite number greater than -1",
  "Every value of the validated parameter type, however it was obtained (constructor, conversion from f64, parsing from text, default, checked arithmetic, deserialization), is finite and strictly greater than -1. Construction from x succeeds exactly when x is finite and x > -1 and then yields exactly x; checked arithmetic and parsing yield exactly the corresponding f64 result when that result is valid and report failure otherwise. The default value is 0.",
  ["inputs","histories"],"all 2^64 bit patterns of every f64 argument, every already valid value, every serialized number",
  "The tests try about a dozen literals; the claim is about every bit pattern (NaN payloads, subnormals, the neighbours of -1) and every entry point, including deserialization.",
  ["src/data_api.rs"],[("FiniteAboveNegOneF64::new is the single gate","src/data_api.rs"),("checked_add/sub/mul/div/pow go through new","src/data_api.rs"),("TryFrom, FromStr, Default, serde try_from","src/data_api.rs")])
p("C02","Weighted rules integrate as the weighted sum of integrand values at the nodes",
  "For every Gauss rule object and every integrand f, integrate evaluates f exactly once per stored node and returns the sum of weight times f(node). For Legendre, Chebyshev (both kinds) and Jacobi the integration bounds a, b map each node x to ((b-a)x + (a+b))/2 and multiply the sum by (b-a)/2, for all real a and b in either order; Laguerre and Hermite use the nodes as they are.",
  ["inputs"],"all six weighted rule types, all degrees and node-weight tables, all integrands, all finite bounds a and b including a > b and a = b",
  "Tests integrate a handful of polynomials between fixed bounds; a wrong affine map, a skipped or repeated node or a wrong scale can cancel for those.",
  ["src/%s/mod.rs"%m for m in W],[("integrate","src/%s/mod.rs"%m) for m in W]+[("argument_transformation and scale_factor","src/jacobi/mod.rs"),("argument_transformation and scale_factor","src/legendre/mod.rs")])
p("C03","Parallel constructors and integrators compute what the sequential ones compute",
  "With the rayon feature, every parallel constructor yields the same node-weight pairs in the same order as its sequential counterpart. Every parallel integration evaluates the integrand at the same points with the same weights as the sequential integration, so the two results differ only by the rounding of a reordered summation.",
  ["inputs","schedules"],"all rules with a par_new or par_integrate method (all nine), all degrees, bounds and integrands, all splittings rayon may choose",
  "Tests compare single degrees and smooth integrands on one machine's schedule; they do not cover all degrees or work splittings.",
  ["src/legendre/mod.rs","src/chebyshev/mod.rs","src/jacobi/mod.rs","src/laguerre/mod.rs","src/hermite/mod.rs","src/midpoint/mod.rs","src/trapezoid/mod.rs","src/simpson/mod.rs"],
  [("par_new","src/legendre/mod.rs"),("par_new","src/chebyshev/mod.rs"),("par_integrate","every rule module"),("rayon::join of the two partial sums","src/simpson/mod.rs")])
p("C04","Midpoint, trapezoid and Simpson rules equal their composite formulas",
  "With n subintervals of width h = (b-a)/n, the midpoint rule returns h times the sum of f at the n interval midpoints, the trapezoid rule returns h times (half of f(a) + f(b) plus the sum of f at the n-1 interior edges), and Simpson's rule returns h/6 times (f(a) + f(b) + 2 times the sum at interior edges + 4 times the sum at the n midpoints). Hence they are exact for polynomials of degree 1, 1 and 3, for all bounds in either order. Each sample point is evaluated exactly once.",
  ["inputs"],"all degrees 1..2^32-1, all finite bounds, all integrands, sequential integration",
  "Tests use a few degrees and integrands; a wrong treatment of the last interval, of degree 1 or of reversed bounds is invisible there.",
  ["src/midpoint/mod.rs","src/trapezoid/mod.rs","src/simpson/mod.rs","src/data_api.rs"],[("integrate","src/midpoint/mod.rs"),("integrate","src/trapezoid/mod.rs"),("integrate","src/simpson/mod.rs")])
p("C05","Gauss-Chebyshev nodes and weights equal their closed forms for every degree",
  "The first-kind rule of degree n has nodes -cos((2i-1)pi/(2n)) and weights pi/n, and the second-kind rule has nodes -cos(i pi/(n+1)) and weights pi/(n+1) sin^2(i pi/(n+1)), for i = 1..n in ascending order. They are therefore exact for polynomials up to degree 2n-1 against 1/sqrt(1-x^2) and sqrt(1-x^2).",
  ["inputs"],"every degree n >= 1, every index, sequential and parallel constructors",
  "Tests check a few fixed degrees; the formula has to hold for every degree.",
  ["src/chebyshev/mod.rs"],[("GaussChebyshevFirstKind::new / par_new","src/chebyshev/mod.rs"),("GaussChebyshevSecondKind::new / par_new","src/chebyshev/mod.rs")])
p("C06","Hermite, Laguerre and Jacobi rules are the Gauss rules of their weight function",
  "For every degree n and every valid parameter (finite, above -1, with representable gamma-function values), the nodes and weights of the Hermite, Laguerre and Jacobi rules are those of the n-point Gauss quadrature for exp(-x^2), x^alpha exp(-x) and (1-x)^alpha (1+x)^beta: the rule integrates every polynomial of degree up to 2n-1 exactly (up to rounding), and the weights are nonnegative and sum to the integral of the weight function.",
  ["inputs"],"all degrees n >= 1, all alpha, beta > -1 whose gamma-function values neither overflow nor underflow",
  "Tests compare tables for a few degrees and parameters; parameters such as alpha + beta = -1, or asymmetric parameters with odd degree, are not sampled.",
  ["src/golub_welsch.rs","src/hermite/mod.rs","src/laguerre/mod.rs","src/jacobi/mod.rs","src/math.rs"],
  [("golub_welsch: symmetric tridiagonal matrix, eigenvalues as nodes, squared first components times mass as weights","src/golub_welsch.rs"),("recurrence coefficients and total mass","src/hermite/mod.rs, src/laguerre/mod.rs, src/jacobi/mod.rs"),("gamma","src/math.rs")])
p("C07","Jacobi special cases and rule conversions keep nodes, weights and parameters",
  "Constructing a Jacobi rule with (alpha, beta) = (0,0), (-1/2,-1/2) or (1/2,1/2) yields exactly the Legendre, first-kind and second-kind Chebyshev rule of that degree, and converting such a rule into a Jacobi rule keeps all node-weight pairs and reports those parameters. Every Jacobi or Laguerre rule reports the alpha and beta it was constructed with.",
  ["inputs"],"all degrees, all parameter pairs, all rules converted",
  "Tests convert one rule of each kind; the equality must hold for every degree and the accessors for every parameter.",
  ["src/jacobi/mod.rs","src/laguerre/mod.rs"],[("dispatch in GaussJacobi::new","src/jacobi/mod.rs"),("From<GaussLegendre>, From<GaussChebyshev*> for GaussJacobi","src/jacobi/mod.rs"),("alpha(), beta()","src/jacobi/mod.rs, src/laguerre/mod.rs")])
p("C08","Gauss-Legendre rules up to degree 100 are accurate to double precision",
  "For every degree n from 1 to 100, each node of the Legendre rule is the correctly ordered zero of the Legendre polynomial P_n with error below 1e-15, and its weight equals 2/((1-x^2) P_n'(x)^2) with relative error below 1e-14. Nodes come in pairs +-x with equal weights, and the middle node of odd rules is zero to double precision.",
  ["inputs"],"all 5050 (degree, index) pairs with degree <= 100",
  "The tests check a few degrees against reference values and sums that a wrong table entry far from the sampled degrees survives.",
  ["src/legendre/mod.rs","src/legendre/bogaert/mod.rs","src/legendre/bogaert/data.rs"],[("tabulated theta and weight arrays","src/legendre/bogaert/data.rs"),("tabulated_pair with mirroring","src/legendre/bogaert/mod.rs")])
p("C09","Gauss-Legendre rules above degree 100 are accurate to double precision",
  "For every degree n above 100 and every index, the Legendre rule's node is the corresponding zero of P_n (error below 1e-15 in the node) and its weight is the Gauss weight (relative error below 1e-13), including the nodes nearest the end points, the middle node of odd degrees and the mirrored half.",
  ["inputs"],"all degrees n > 100 (as far as f64 represents 1/(n+1/2)), all indices",
  "Tests sample a few large degrees and only sums of weights; the accuracy depends on Bessel tables, their switch-over index and polynomial coefficients whose errors show only at particular degrees or indices.",
  ["src/legendre/bogaert/mod.rs","src/legendre/bogaert/data.rs"],[("compute_pair asymptotic expansion","src/legendre/bogaert/mod.rs"),("bessel_j0_zero, bessel_j1_squared with tables below an index and series above","src/legendre/bogaert/mod.rs")])
p("C10","All views and iterators of a rule present the same node-weight sequence",
  "For every rule, as_node_weight_pairs, into_node_weight_pairs, iter, into_iter (owned and borrowed), nodes, weights, as_slice, as_ref, len and degree describe one and the same ordered sequence. Under any interleaving of next, next_back, nth and nth_back every iterator behaves like a double-ended queue over that sequence: it yields each remaining element once in order, its size_hint, len and count give the exact number of remaining elements, last gives the final one, and after exhaustion it keeps returning None.",
  ["inputs","histories"],"all rules, all node tables, all finite call histories on all iterator types (27 of them), including nth beyond the end",
  "Tests call each method once on one fresh five-point mock rule; they do not cover partially consumed iterators, both ends or other rules.",
  ["src/data_api.rs","src/legendre/mod.rs","src/chebyshev/mod.rs","src/jacobi/mod.rs","src/laguerre/mod.rs","src/hermite/mod.rs","src/midpoint/mod.rs","src/trapezoid/mod.rs","src/simpson/mod.rs"],
  [("__impl_node_weight_rule! and __impl_slice_iterator_newtype_traits!","src/data_api.rs"),("__impl_node_rule!","src/data_api.rs")])
p("C11","Newton-Cotes rules are determined by their current degree",
  "A midpoint, trapezoid or Simpson rule reports the degree it was last given by new or change_degree, its iterator yields exactly 0, 1, .., degree-1, and every later integration behaves as that of a freshly constructed rule of that degree, whatever happened to the object before.",
  ["inputs","histories"],"all degrees 1..2^32-1, all histories of change_degree, iteration and integration",
  "Tests change the degree once; the claim is over every degree and every history.",
  ["src/midpoint/mod.rs","src/trapezoid/mod.rs","src/simpson/mod.rs","src/data_api.rs"],[("new, change_degree","src/midpoint/mod.rs, src/trapezoid/mod.rs, src/simpson/mod.rs"),("degree(), iter()","src/data_api.rs")])
p("C12","A weighted rule of degree n has exactly n nodes in ascending order",
  "Every constructor of a Gauss rule called with degree n yields exactly n node-weight pairs, sorted by ascending node, and degree() returns n. Up to rounding, nodes of the Legendre, Chebyshev and Jacobi rules lie in [-1, 1] and those of the Laguerre rule are positive.",
  ["inputs"],"all degrees n >= 1, all valid parameters whose gamma-function values neither overflow nor underflow, all constructors",
  "Tests check sortedness for a few degrees and parameters.",
  ["src/golub_welsch.rs","src/legendre/mod.rs","src/chebyshev/mod.rs","src/jacobi/mod.rs","src/laguerre/mod.rs","src/hermite/mod.rs"],[("sort by total_cmp","src/golub_welsch.rs"),("descending index enumeration of the closed forms","src/legendre/mod.rs, src/chebyshev/mod.rs")])
p("C13","Serialization round trips preserve every rule and parameter",
  "With the serde feature, deserializing what was serialized yields an equal rule or parameter, for every rule type and every value of its fields; serialization writes each field of the object exactly once under its own name.",
  ["inputs"],"all rule types and the parameter type, all field values",
  "No test in the default run serializes anything.",
  ["src/data_api.rs","src/jacobi/mod.rs","src/laguerre/mod.rs","src/hermite/mod.rs","src/legendre/mod.rs","src/chebyshev/mod.rs","src/midpoint/mod.rs","src/trapezoid/mod.rs","src/simpson/mod.rs"],[("derived Serialize and Deserialize implementations","every rule module"),("serde(try_from) on the parameter type","src/data_api.rs")])
p("C14","No valid call panics, overflows an integer or indexes out of bounds",
  "Every public constructor, integration, conversion, accessor and iterator method returns normally for every valid argument (any nonzero degree whose table can be allocated, any valid parameter, any bounds and integrand that itself returns): no arithmetic overflow, division by zero on integers, out-of-bounds index, failed unwrap or reachable panic.",
  ["inputs"],"all public functions, all valid arguments, all feature configurations",
  "Tests run a few degrees; an index error for one degree or one index is not seen.",
  ["src/data_api.rs","src/golub_welsch.rs","src/legendre/bogaert/mod.rs","src/legendre/mod.rs","src/chebyshev/mod.rs","src/jacobi/mod.rs","src/laguerre/mod.rs","src/hermite/mod.rs","src/midpoint/mod.rs","src/trapezoid/mod.rs","src/simpson/mod.rs","src/math.rs"],[("index arithmetic of the tables","src/legendre/bogaert/mod.rs"),("matrix indexing","src/golub_welsch.rs"),("degree arithmetic","every rule module")])
for x in P: assert len(x['title'])<=80,x['title']
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
