"""Writes properties.jsonl (kept so that the file is easy to edit)."""
import json, os
S="src/graph_ensembles/"
DG,SG=S+"graphs.py",S+"sparse/graphs.py"
DM,SE,SR,SF,SI,SC=(S+"models.py",S+"sparse/models/ensembles.py",S+"sparse/models/random.py",S+"sparse/models/fitness.py",S+"sparse/models/invariant.py",S+"sparse/models/conditional.py")
KM=S+"spark/models.py"; SO=S+"solver.py"; LI=S+"lib.py"
MOD=[DM,SE,SR,SF,SI,KM]
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("P01","A graph represents exactly the vertex and edge tables it was built from",
 "Building any of the four graph kinds, dense or sparse, from a vertex table and an edge table yields a graph whose vertices, groups and edge labels map one-to-one onto the identifiers in the tables (simple or composite keys, any row order) and whose adjacency holds exactly the listed edges, with the weights of repeated edges summed (and of both orientations, when undirected) and repeated unweighted edges counted once. Tables with repeated vertex ids, edges to unknown vertices or non-positive weights are refused with an error, and vertices without edges are reported in a warning naming exactly those vertices.",
 ["inputs"],"All vertex/edge tables: any size (across the 255/256 id-width boundary), id and label types, composite keys, duplicates, self-loops, reciprocal edges, isolated vertices, row orders.",
 "The tests build a handful of 3-4 vertex tables with one or two fixed edges lists; no duplicated weighted edges, no >255 vertices, no permutation of rows.",
 [DG,SG],[("constructor of Graph/DiGraph/MultiGraph/MultiDiGraph",DG),("constructor of sparse Graph/DiGraph/MultiGraph/MultiDiGraph",SG)],["adjacency_matrix / adjacency_tensor, id_dict, group_dict, groups, label_dict, warnings and exceptions"])
p("P02","Graph degrees, strengths and totals equal their definitions on the edges",
 "For every graph, the number of edges, total weight, and the (in, out, undirected) degree and strength sequences, overall, per vertex group and per edge label, equal the sums over the graph's edge set that define them, a self-loop counting once per sequence. Hence totals are conserved: sequences sum to the number of edges or total weight, group and label breakdowns sum to the overall value, for an unweighted graph strengths equal degrees, and dense and sparse graphs built from the same tables agree.",
 ["inputs"],"All graphs (dense and sparse, four kinds) with arbitrary weights, self-loops, reciprocal edges, groups and labels.",
 "Tests compare a few 3-4 vertex integer-weight graphs with literals; fractional weights with groups and self-loops in projected multigraphs are never combined.",
 [DG,SG],[("degree/strength/num_edges/total_weight families, sum_by_group",DG),("same, sparse",SG)],["return values of the measures"])
p("P03","Graph nearest-neighbour averages are means over the actual neighbours",
 "For every graph, node property (one value or a vector of values per vertex), neighbourhood direction and self-loop choice, the nearest-neighbour average of a vertex is the arithmetic mean of the property over its distinct neighbours in that direction (excluding the vertex itself when self-loops are excluded) and zero if it has none. The nearest-neighbour degree is the same mean of the requested degree, whatever was asked of the graph before.",
 ["inputs","histories"],"All graphs, properties, directions, self-loop choices and previous queries.",
 "Tests use loop-free graphs and three properties; self-loops, vector properties and repeated calls with different options are untested.",
 [DG,SG],[("average_nn_property, average_nn_degree, av_nn_prop",DG),("same, sparse",SG)],["return values"])
p("P04","Exporting a graph to networkx loses nothing",
 "The networkx object exported from any graph has the matching kind (directed or not, multi or not), one node per vertex carrying the original identifier and group, and exactly the graph's edges with their (summed) weights and, for multigraphs, their original labels. Degrees, number of edges and total weight computed by networkx on the export equal those of the graph.",
 ["inputs"],"All graphs of the four kinds, both representations.",
 "Tests compare one small graph per class, with no reciprocal pairs in undirected layers.",
 [DG,SG],[("to_networkx",DG),("to_networkx",SG)],["the returned networkx graph"])
p("P05","Edge probabilities follow the model's law and are always valid probabilities",
 "For every parameter and fitness values, each model's edge probability is a number in [0,1] equal to its law: constant p for the random graph, dxy/(1+dxy) for the fitness model, 1-exp(-dxy) for the scale-invariant one, per label for multi-layer models whose projected probability is 1 minus the product of (1 - layer probability). It is 0 when the parameter or a fitness is 0, tends to 1 (never NaN or above 1) as the parameter grows without bound, never decreases with the parameter or fitness, and for the scale-invariant models is preserved when nodes are merged and their fitnesses added.",
 ["inputs"],"All non-negative parameters and fitnesses (zero, tiny, huge, infinite parameter), numbers of labels and label supports, all backends.",
 "Tests evaluate the law at a few fixed fitness values near unit scale.",
 MOD,[("probability functions of each model",DM),("probability functions",SF),("probability functions",SI),("probability functions",KM)],["expected degrees / edges / likelihoods of models that isolate a single pair"])
p("P06","Expected edges and degrees are the sums of the edge probabilities",
 "For every fitted or parameterised model the expected number of edges, and the expected in, out and undirected degree of each vertex (overall and by label), equal the corresponding sums of edge probabilities over all ordered pairs, excluding pairs of a vertex with itself unless self-loops are enabled, where an undirected neighbour counts with the probability that at least one of the two directed edges exists. Consequently in- and out-degrees both sum to the expected number of edges, and a uniformly relabelled model gives the relabelled result.",
 ["inputs","configurations"],"All models, fitness arrays (including zeros and label-sparse supports), parameters, self-loop settings, backends, and num_vertices different from or equal to num_labels.",
 "Tests use one 4-vertex example per model with fixed numbers and compare at 1e-5; supports where a node has both in- and out-fitness on a layer, N<L, and many-vertex cases are not covered.",
 MOD,[("expected_num_edges(_label), expected_(out_|in_)degree(_by_label)",DM),("same",SE),("same",SR),("same",KM)],["return values"])
p("P07","Expected neighbour averages are ratios of expected sums",
 "For every model, vertex property, direction and self-loop choice, the expected nearest-neighbour average of a vertex is the probability-weighted sum of the property over its possible neighbours in that direction divided by the vertex's expected number of such neighbours, and zero if that number is zero. The expected nearest-neighbour degree is the same quantity for the requested expected degree.",
 ["inputs","configurations"],"All models, properties, the 3x3 direction choices, self-loop options, backends.",
 "Tests use constant/zero/scaled properties on one 4-vertex graph; asymmetries between directions and the self-loop option differing from the model's are barely sampled.",
 MOD,[("expected_av_nn_property, expected_av_nn_degree",DM),("same",SE),("same",SR),("same",KM)],["return values"])
p("P08","Fitting reproduces the requested density or says that it did not",
 "After fitting any model with an achievable target, the expected number of edges (overall, or of every label separately when one parameter per label is used) equals the requested number within the solver tolerance and the fit is reported as converged, whatever the fitness scale and admissible starting point. Whenever the result misses the target by more than the tolerance, for example because the target cannot be reached, the fit reports non-convergence and warns.",
 ["inputs","configurations"],"All models, fitness scales over many decades, targets from sparse to nearly saturated or infeasible, starting points, label counts, self-loop settings, backends.",
 "Tests fit two or three fixed graphs from two starting points.",
 MOD+[SO,SC],[("fit",DM),("fit",SF),("fit",SC),("fit",KM),("monotonic_newton_solver",SO)],["model parameters after fit, solver output flags, warnings"])
p("P09","The root finder is honest about convergence and stays in its bracket",
 "For any monotonic function, target and admissible start, the solver returns a point inside the allowed bracket, using at most the allowed number of iterations, and reports convergence exactly when the function there is within the absolute plus relative tolerance of the target. It does converge for functions of the kind met in fitting (monotonic, flattening away from the finite lower end of the bracket) that reach the target inside the bracket, and starting points outside the bracket are refused.",
 ["inputs"],"All monotonic functions (increasing and decreasing, saturating, steep, flat, with unreachable target), brackets, tolerances and iteration limits.",
 "There are no direct tests of the solver; it is only exercised through a few model fits.",
 [SO],[("monotonic_newton_solver",SO),("Solution flags",SO)],["returned solution and its flags, trace of function evaluations"])
p("P10","Log-likelihood is the sum of the log-probabilities of all pairs",
 "For every model and graph, the log-likelihood equals the sum over all admissible ordered pairs (and labels, when a labelled graph is given) of the log-probability of the pair's observed state, and is minus infinity exactly when the graph has an edge of probability zero (including a self-loop when these are disabled) or lacks one of probability one. The value does not depend on whether the graph is passed as a graph object, an array, or in sparse form, nor on edge weights, and graphs of the wrong size are refused.",
 ["inputs"],"All models, parameters (including 0 and saturating ones), graphs and adjacency representations.",
 "Tests score one observed graph per model; impossible/forced edges, empty and complete graphs and alternative formats are only partly touched.",
 MOD,[("log_likelihood",DM),("log_likelihood",SE),("log_likelihood",SR),("log_likelihood",KM)],["return values and exceptions"])
p("P11","Samples are drawn with the model's edge probabilities, independently",
 "In graphs sampled from any fitted model each ordered pair (per label) is an edge with exactly the model's probability for it, independently of other pairs and of other samples: impossible edges and disabled self-loops never appear, certain edges always do, and observed frequencies, pair correlations and edge-count variance match the law. This holds for every model and backend.",
 ["inputs","histories"],"All models, parameters, self-loop settings, backends, and long sequences of samples.",
 "Tests average a few hundred samples of one example and compare total degrees at tolerances of 10% or more.",
 MOD,[("sample (binary)",DM),("sample (binary)",SE),("sample (binary)",SR),("sample (binary)",KM)],["sequence of sampled graphs"])
p("P12","Sampled edge weights have the prescribed distribution",
 "When weights are requested, the sampled topology still follows the model's edge probabilities, every sampled edge has a strictly positive weight, and weights are distributed as specified: with the strength-preserving scheme the unconditional mean weight of a pair is the product of its out- and in-strength over the total strength (per label for multi-layer models, using the strengths supplied or, by default, the fitnesses) and the weight of an existing edge is exponential; for the random graph's own scheme it is exponential or geometric with the fitted parameter. Strength sequences with different totals are refused.",
 ["inputs"],"All models, weight schemes, strengths (default and supplied), backends.",
 "Existing tests check average strengths of one example at loose tolerance and skip several schemes entirely.",
 MOD,[("sample with weights",DM),("sample with weights",SE),("sample with weights",SR),("sample with weights",KM)],["sampled weights"])
p("P13","A sampled graph is a well-formed graph carrying the reference identities",
 "Every sampled graph has the model's number of vertices and labels, supports all graph measures and exports, and its adjacency only refers to existing vertices. If a reference graph is given its vertex identifiers, groups and labels are those of the reference; otherwise they are consecutive integers.",
 ["inputs","histories"],"All models, backends, weight schemes, with and without reference graphs (with and without groups).",
 "Tests check the id dictionaries of one example.",
 MOD+[SC],[("sample",DM),("sample",SE),("sample",SR),("sample",SC),("sample",KM)],["attributes and measures of sampled graphs"])
p("P14","Conditional samples reproduce the observed coarse-grained graph",
 "Every graph sampled from the conditional scale-invariant model, aggregated over the vertex groups, has an edge between two groups if and only if the observed coarse-grained graph does, with no self-loops unless enabled, and edge frequencies equal to the probabilities conditioned on that event. With the aggregate-weight scheme the weights between two groups sum exactly to the observed weight, split in proportion to the strengths, and with the strength-preserving scheme the mean weight of every admissible pair is the product of its strengths over the total.",
 ["inputs","histories"],"All fitnesses, partitions (including singleton groups), asymmetric coarse-grained graphs, parameters, weight schemes and sample histories.",
 "Tests sample one graph with a near-symmetric coarse graph.",
 [SC],[("sample of the conditional model",SC)],["sampled graphs"])
p("P15","Conditional expectations and likelihood are those of the conditioned law",
 "For the conditional scale-invariant model the expected number of edges, the expected degrees and the expected neighbour averages equal those of the scale-invariant ensemble conditioned on the observed coarse-grained graph, as obtained by exhaustive enumeration on small systems. For every finite parameter its log-likelihood is normalised (probabilities of all compatible graphs sum to one) and minus infinity exactly for graphs whose aggregation differs from the observed one or that use a disabled self-loop.",
 ["inputs"],"All fitnesses, partitions, coarse-grained graphs (asymmetric ones included), parameters and self-loop settings.",
 "Tests compare one instance with stored literals.",
 [SC],[("expected_* and log_likelihood of the conditional model",SC)],["return values"])
p("P16","Dense, sparse and distributed implementations give the same answers",
 "The dense, sparse and distributed versions of a model built from the same data give, up to rounding, the same fitted parameters, expected edges, expected degrees (by label too), expected neighbour averages and log-likelihoods. The representation only changes cost, never results.",
 ["inputs","configurations"],"All inputs and models, pairwise over the three backends.",
 "No test compares backends; each is tested on its own fixed example.",
 MOD+[DG,SG],[("dense models",DM),("sparse models",SE),("distributed models",KM)],["return values of the same call on the three backends"])
p("P17","Distributed results do not depend on partitioning, scheduling or retries",
 "For the distributed models every deterministic result (fit, expectations, likelihood, confusion counts) is the same, up to rounding, for any number of blocks and any degree of parallelism, in any completion order of tasks and when tasks are retried, and the vertex pairs processed by the blocks cover every ordered pair exactly once. Samples drawn under any partitioning follow the same law, and blocks of one sample, and successive samples, use independent random streams.",
 ["schedules","configurations","fault_sequences"],"All block counts from one to more than the number of vertices, worker counts, task orders, task failures and retries.",
 "Tests run one block count on one local context.",
 [KM],[("block decomposition and per-block reductions",KM)],["per-block trace of the distributed collection, return values"])
p("P18","Queries are pure: answers do not depend on what was asked before",
 "Answers of a graph or model depend only on its data and current parameters: any sequence of queries and samplings, in any order and with any options, returns the same values as a fresh object, leaves parameters, fitnesses and settings unchanged, and does not alter arrays, tables or graphs supplied by the caller. After the parameters change (for example by refitting to a new target), asking for recomputation gives exactly the answers for the new parameters.",
 ["histories"],"All sequences of public calls (expectations, neighbour averages with any self-loop option, likelihoods, samples, fits, failed calls) on one object.",
 "Tests call each method once on a fresh object.",
 MOD+[DG,SG,SC],[("result caching and temporary self-loop switching",DM),("same",SE),("same",KM)],["return values, public attributes, caller's arrays"])
p("P19","Compiled kernels never read or write outside their arrays",
 "No public operation on valid graphs or models makes the compiled numerical kernels index outside the arrays they are given, whatever the number of vertices, labels, groups and the sparsity of the inputs.",
 ["inputs","configurations"],"All valid inputs, including one vertex, one label, empty layers, empty graphs, more labels than vertices.",
 "The kernels are compiled without bounds checks, so tests pass on out-of-range reads.",
 MOD+[DG,SG,SC,LI],[("numba kernels",DM),("numba kernels",SE),("numba kernels",SC),("numba kernels",KM),("numba kernels",SG)],["bounds-check instrumentation (NUMBA_BOUNDSCHECK) and process exit status"])
p("P20","Models take explicit arguments over the graph's and refuse invalid ones",
 "A model built from a graph uses the graph's size, number of edges and strengths (per label for multi-layer models), except that every explicitly passed argument overrides the graph's value, and models built from equivalent graph or explicit arguments behave identically. Negative, non-numeric or wrongly sized arguments, unknown arguments, missing mandatory ones and use before fitting are refused with an error.",
 ["inputs","configurations"],"All argument combinations and models, three backends.",
 "Tests enumerate some invalid arguments per class, not combinations, and rarely check override precedence.",
 MOD+[SC],[("model constructors",DM),("model constructors",SF),("model constructors",SC),("model constructors",KM)],["constructed models, exceptions"])
p("P21","Page rank and trophic depth satisfy their defining equations",
 "For any sparse directed graph, the page rank is a probability vector that satisfies the damped random-walk equation (weighted or unweighted, dangling vertices spreading uniformly) to the requested tolerance and agrees with networkx. The trophic depth satisfies its recursion, one plus the weight-averaged depth of the out-neighbours including the final sink at depth zero, to the requested tolerance.",
 ["inputs"],"All sparse directed graphs with integer, float or no weights, dangling and isolated vertices, all damping factors and tolerances.",
 "The functions have no tests at all.",
 [LI],[("pagerank",LI),("trophic_depth",LI)],["return values"])
p("P22","Confusion matrices count every admissible pair exactly once per threshold",
 "For every distributed model, observed graph and set of thresholds, the true/false positives and negatives reported at each threshold are those obtained by calling an edge predicted when its probability reaches the threshold, over all admissible ordered pairs exactly once. So the four counts sum to the number of admissible pairs, positives to the number of observed edges, and predictions never increase with the threshold.",
 ["inputs","configurations"],"All distributed models, graphs, thresholds, block counts.",
 "No test calls it.",
 [KM],[("confusion_matrix",KM)],["return values"])
p("P23","Dyadic properties and user-defined laws act on the right ordered pair",
 "A single-layer model whose edge law or dyadic property is replaced by the user (by subclassing or assignment, the documented extension point) describes independent edges of probability p(param, out-property of i, in-property of j, dyadic property of i and j) for every ordered pair (i, j): expected edges, degrees and neighbour averages, log-likelihoods, samples and weights all follow from it, in every backend and partitioning. In the sparse fitness and scale-invariant models the dyadic property multiplies d*x*y, and fits still reach their target.",
 ["inputs","configurations"],"All dyadic properties and laws on the Fitness/ScaleInvariant models, three backends, any partitioning.",
 "No test sets a dyadic property or another law.",
 [DM,SE,SF,SI,KM],[("pair loops of DiGraphEnsemble",DM),("pair loops of DiGraphEnsemble",SE),("density_fit_fun, p_ij",SF),("p_ij, logp, log1mp",SI),("pair loops of DiGraphEnsemble",KM)],["return values, sampled graphs"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x)+"\n")
print(len(P))
