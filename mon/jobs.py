"""Registry: the worker processes of every property's check."""
PROPS = {}


def prop(id, rule, quick, thorough=None, assumptions=()):
    PROPS[id] = dict(rule=rule, quick=quick, thorough=thorough or quick, assumptions=list(assumptions))


def J(name, cores=1, **env):
    return dict(name=name, cores=cores, env=env)


def jobs(id, tier):
    s = PROPS[id]
    return s["quick"] if tier == "quick" else s["thorough"]


def shards(base, n, cores=1, **env):
    return [J("%s#%d" % (base, i), cores, **env) for i in range(n)]


GT = ("Random vertex/edge tables (2-300 vertices; integer, string, float and composite keys; shuffled rows and "
      "indexes; duplicate, reciprocal and self-loop edges; isolated vertices; weights over 12 decades); a case is "
      "non-trivial when its table differs from all others")
prop("P01", GT, shards("dense", 2) + shards("sparse", 2), shards("dense", 4) + shards("sparse", 4))
prop("P02", GT, shards("dense", 2) + shards("sparse", 2), shards("dense", 4) + shards("sparse", 4))
prop("P03", GT + "; each with scalar and vector vertex properties, all directions and self-loop choices",
     shards("dense", 2) + shards("sparse", 2), shards("dense", 4) + shards("sparse", 4))
prop("P04", GT, shards("dense", 2) + shards("sparse", 2), shards("dense", 4) + shards("sparse", 4))

MS = ("Random model specifications (1-64 vertices, 1-6 labels; uniform, heavy-tailed, integer and zero-ridden "
      "fitnesses; parameters from 0 to saturation; self-loops on/off; dense, CSR, CSC, COO, unsorted and "
      "explicit-zero inputs); non-trivial when more than one vertex and distinct")
D3 = shards("dense", 2) + shards("sparse", 2) + shards("spark", 3)
D3T = shards("dense", 3) + shards("sparse", 3) + shards("spark", 3, cores=2)
LOC = shards("spark:local", 5)          # the distributed classes on the in-process context, one class each
D3, D3T = D3[::-1] + LOC, D3T[::-1] + LOC
prop("P05", "Fitness/parameter combinations placing d*x*y on a grid from 0 to 1e290, per class and backend; each case "
     "observes one probability per vertex through expected degrees of single-sink/single-source models; distinct by parameters", D3, D3T)
prop("P06", MS, D3, D3T)
prop("P07", MS + "; vertex properties scalar and vector, every neighbourhood/degree direction and self-loop choice in random order", D3, D3T)
prop("P10", MS + "; graphs possible, impossible, with missing certain edges and with disabled self-loops, passed in up to 12 representations", D3, D3T)
prop("P11", "Per class, backend and self-loop choice: designed models with impossible, certain and intermediate pairs, and "
     "degenerate ones; thousands of samples each (dense, sparse), tens (distributed); a case is a model; the monitors "
     "count every pair of every sample", D3, D3T)
prop("P12", "Per class and backend: designed models sampled with supplied and default strengths (arrays and sparse formats), "
     "both self-loop choices, and the random graph's exponential and geometric weights; a case is a model", D3, D3T)
CT = ("Random partitions of 1-20 vertices into 1-5 groups, one-way and missing macro links, zero, integer and heavy-tailed "
      "fitnesses, parameters 0, 1e-17 to 1e4 (in units of the group rates) and infinite, both self-loop settings, 7 matrix formats; "
      "non-trivial when there is a macro link")
prop("P15", CT + "; plus exhaustive enumeration of all graphs on 2-4 vertices", shards("sparse", 4), shards("sparse", 8))
prop("P14", CT + "; thousands of samples per model and weighting scheme, the macro graph of every one checked", shards("sparse", 4), shards("sparse", 8))
prop("P09", "Monotonic functions of 11 families (saturating, rational, mixtures over many scales, logarithmic, linear, cubic, "
     "sigmoid, exponential), increasing and decreasing, finite, half-infinite and infinite brackets, reachable and unreachable "
     "targets, tolerances and iteration limits; distinct by parameters", shards("solver", 4), shards("solver", 8))
prop("P08", MS + "; fitnesses rescaled over 24 decades, targets from 1e-6 to 0.999999 of the maximum, zero, the maximum and beyond, "
     "default, scalar, integer, array and extreme starting points, tolerances and iteration limits; distinct non-zero targets", D3, D3T)
prop("P13", MS + "; with and without reference graphs (integer, string, float and composite identifiers, groups, labels), unweighted "
     "and every weighting scheme; every graph measure, projection, export and model construction on the sample is compared with the "
     "reference computed from its adjacency", D3, D3T)
prop("P21", GT + "; directed graphs, plus rings, dense and empty ones, integer and 8-bit weights, damping 0 to 0.95, "
     "tolerances 1e-13 to 1e-4, integer, partial and full final connections", shards("lib", 4), shards("lib", 8))
prop("P22", MS + "; 1-70 vertices in 1-10 blocks, graphs in 12 representations, thresholds separated from every "
     "probability, equal to it (exactly representable), 0, above 1 and automatic", shards("spark", 5) + LOC, shards("spark", 5) + LOC)
prop("P16", MS + "; given parameters, fitted targets (overall and per label) and models built from graph tables; every pair of backends "
     "compared on the same data", shards("spark", 5) + LOC + shards("sparse", 3), shards("spark", 5) + LOC + shards("sparse", 3))
prop("P17", MS + "; 1-85 vertices in 1 to 3n requested blocks, one to eight executor threads, tasks delayed at random, a task of every tenth job "
     "failing once or twice after doing its work; fits, expectations, likelihoods, confusion counts, samples", shards("spark", 5) + LOC, shards("spark", 5) + LOC)
prop("P18", MS + "; random histories of 7-60 queries, samplings, failing calls, parameter changes and refits per object, every answer compared "
     "with a fresh object's; the same for graphs of random tables", shards("spark", 5) + LOC + shards("dense", 2) + shards("sparse", 2), shards("spark", 5) + LOC + shards("dense", 3) + shards("sparse", 3))
prop("P19", "The workloads of P01-P04, P06-P10, P13-P15, P18 and P21 with other seeds, plus shapes at the limits (one vertex, one label, more labels "
     "than vertices, empty layers and vertices, missing strengths, empty and complete graphs), all with the bounds checker compiled in",
     shards("spark", 3, NUMBA_BOUNDSCHECK="1") + shards("dense", 1, NUMBA_BOUNDSCHECK="1") + shards("sparse", 2, NUMBA_BOUNDSCHECK="1")
     + shards("lib", 1, NUMBA_BOUNDSCHECK="1") + shards("spark:local", 5, NUMBA_BOUNDSCHECK="1"))
prop("P20", "Per class and backend: random graphs and the equivalent explicit arguments, random sets of overriding arguments, a list of about 80 invalid "
     "arguments per class in random valid contexts, use before fitting; distinct by class and case", shards("spark", 5) + LOC + shards("dense", 2) + shards("sparse", 2))
prop("P23", "Fitness and scale-invariant models (dense, sparse, distributed over 1-3 blocks) given three dyadic properties (asymmetric, "
     "zero for a third of the pairs, decaying) and, in turn, a user-defined asymmetric law, by subclassing or by assignment; 1-41 vertices, "
     "zero fitnesses, self-loops on/off; distinct by parameters",
     shards("spark", 2) + shards("sparse", 4) + shards("spark:local", 2) + shards("dense", 2), shards("sparse", 4) + shards("spark:local", 2) + shards("dense", 2) + shards("spark", 2, cores=2))
