import json
H="src/header/EasyFactorGraph/"; S="src/src/"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))

p("C01","Joint-domain enumeration is complete, ordered and duplicate-free",
"Iterating the joint domain of any group of variables visits every combination exactly once, starting from all zeros, in lexicographic order with the last variable varying fastest, and then compares equal to the end of the range. A copy of an iterator points to the same combination and the two advance independently; advancing an iterator that is at the end is rejected with an error.",
["inputs","histories"],"all groups (any number of variables, any sizes including 1) and all interleavings of advancing and copying iterators",
"tests walk three fixed groups with equal small sizes, never copy an iterator midway and never use size-1 variables",
[H+"categoric/GroupRange.h",S+"categoric/GroupRange.cpp"],
[("carry propagation in the increment","src/src/categoric/GroupRange.cpp operator++")],
[("combination","current point of the joint domain",H+"categoric/GroupRange.h")],
["dereference, increment, comparison with the end, copy constructor"])

p("C02","A factor is a total non-negative map under any update history",
"After any sequence of image assignments, overwrites, clears, copies and variable replacements, the image a factor gives to each combination is the value last assigned to it since the last clear, and 0 if there is none, no matter how many combinations were assigned or in which order; point look-up, iteration over all combinations (in domain order) and iteration over the non-null ones agree. Assigning a negative value or a combination of wrong length or out of range is rejected and changes nothing, and changing a copy never changes the original. The probabilities are the images divided by their sum in domain order, and uniform when all images are 0.",
["inputs","histories"],"all groups, all histories of set/overwrite/clear/copy/replace on factors of any number of combinations",
"tests assign a couple of entries on tiny factors; the switch between the two internal representations, overwrites with 0, clears after the switch and copies after it are never combined",
[S+"factor/Function.cpp",H+"factor/Function.h",S+"factor/Mutable.cpp",S+"factor/Immutable.cpp",S+"factor/Factor.cpp"],
[("sparse to dense switch",S+"factor/Function.cpp set"),("argument validation",S+"factor/Mutable.cpp set"),("normalisation",S+"factor/Immutable.cpp getProbabilities")],
[("data","sparse or dense container of raw images",H+"factor/Function.h")],
["set, clear, copy constructor, replaceVariables, findImage, forEachCombination, forEachNonNullCombination, getProbabilities"])

p("C03","Factor algebra: merge, permute, correlate, exponentiate, look-up are exact",
"Merging factors yields on the union of their variables exactly the pointwise product of their images; permuting the group of a factor keeps the image of every assignment; simply (anti-)correlated factors are 1 (0) exactly on the combinations with all values equal and 0 (1) elsewhere, and are rejected for variables of different sizes or a single variable. An exponential factor has image exp(weight x raw image) for its current weight on every combination, and a clone of any factor's images is an independent factor with the same images; looking up a factor through a larger group returns the image of the sub-combination. Permuting into a group with other variables, or looking up through a group lacking a variable, is rejected.",
["inputs","histories"],"all factors of 1 to 3 variables with arbitrary (asymmetric, unequal) sizes and images, all orders of the merged factors and of the groups, all weights",
"tests use a few symmetric or hand-written tables; order-dependence and unequal sizes are not sampled",
[S+"factor/Factor.cpp",S+"factor/FactorExponential.cpp",S+"factor/ImageFinder.cpp"],
[("merge over the union of variables",S+"factor/Factor.cpp Factor(vector)"),("index mapping of permutation",S+"factor/Factor.cpp cloneWithPermutedGroup"),("exponential transform",S+"factor/FactorExponential.cpp"),("index extraction",S+"factor/ImageFinder.cpp")],
(),["Factor constructors, merge, cloneWithPermutedGroup, FactorExponential, makeFinder"])

p("C04","Variables and groups: unique names, exact sizes, guarded replacement",
"A variable has a non-empty name and at least one value, anything else is rejected; a group never contains two variables with the same name, its joint size is the product of the sizes of its variables, it lists them in insertion order, and two groups are equal exactly when they hold the same variables in any order. Replacing the variables of a group succeeds exactly when the new list has the same length, no repeated name and the same size in every position; every rejected call leaves the group as it was. Removing a set of variables from another, or taking the complement, gives exactly the set difference.",
["inputs","histories"],"all sequences of construction, addition and replacement over variables with colliding names and sizes",
"tests add a handful of distinct variables; collisions of name with a different size, replacements with repeated variables and unequal sizes are not combined",
[S+"categoric/Group.cpp",S+"categoric/Variable.cpp",H+"categoric/Group.h",H+"categoric/Variable.h"],
[("duplicate check",S+"categoric/Group.cpp add / constructor"),("size check",S+"categoric/Group.cpp replaceVariables")],(),
["Group constructors, add, replaceVariables, size, operator==, set difference"])

p("C05","The model always reports exactly the structure that was inserted",
"At every moment the variables of a model are exactly those mentioned by the factors it accepted, each listed once, split without overlap into hidden and observed ones, the latter with their current values; every accepted factor is reported exactly once, as constant or as tunable. A factor is accepted exactly when it was not inserted before, involves one or two variables, does not connect two variables that are already connected, and does not bring a second variable object for a name already present.",
["inputs","histories"],"all insertion histories (constant, tunable, copied or shared factors), interleaved with evidence changes and queries",
"tests build about ten fixed models in one order and look at the structure once",
[S+"structure/bases/FactorsAware.cpp",S+"structure/bases/StateAware.cpp",S+"structure/FactorsConstManager.cpp",S+"trainable/FactorsTunableManager.cpp"],
[("insertion dispatch",S+"structure/bases/FactorsAware.cpp addDistribution"),("node look-up",S+"structure/bases/FactorsAware.cpp findOrMakeNode"),("partition by cluster/evidence",S+"structure/bases/StateAware.cpp")],
[("variables/nodes/clusters/evidences","graph state",H+"structure/bases/StateAware.h")],
["getAllVariables, getHiddenVariables, getObservedVariables, getEvidences, getAllFactors, getConstFactors, getTunableFactors, findVariable"])

p("C06","Marginals are exact on acyclic models, for every history",
"Whenever the part of the model connected to a variable through hidden variables has no cycle, the marginal returned for that variable is the exact conditional distribution given the current evidences of the product of all factors in the model, for factors of any shape (asymmetric, with zeros, variables of different sizes). This holds after every history of insertions, evidence changes, weight changes and queries that led to the current model.",
["inputs","histories"],"all factor tables, sizes, tree shapes, factor orientations, evidence sets and operation histories",
"tests query a few fixed models whose binary factors are all symmetric over equal sizes, mostly once after construction",
[S+"structure/QueryManager.cpp",S+"structure/bases/BeliefAware.cpp",S+"structure/SpecialFactors.cpp",S+"structure/Types.cpp",S+"structure/EvidenceManager.cpp"],
[("sum message",S+"structure/SpecialFactors.cpp MessageSUM"),("message passing order",S+"structure/bases/BeliefAware.cpp message_passing"),("unary and evidence merging",S+"structure/Types.cpp updateMergedUnaries")],
[("messages, merged unaries","cached partial results",H+"structure/Types.h")],["getMarginalDistribution by variable and by name"])

p("C07","MAP estimates are exact on acyclic models, for every history",
"Whenever the hidden part of the model has no cycle, the MAP value returned for a variable maximises the exact max-marginal of that variable given the current evidences, and the MAP of the hidden set, read in the order of the reported hidden variables, is the most probable assignment whenever that is unique (each of its values is a maximiser otherwise). The MAP of an observed variable is its observed value. This holds also when sum and MAP queries alternate.",
["inputs","histories"],"all factor tables, sizes, tree shapes, evidence sets and histories alternating the two kinds of query",
"tests ask MAP on few fixed chains with symmetric factors",
[S+"structure/QueryManager.cpp",S+"structure/bases/BeliefAware.cpp",S+"structure/SpecialFactors.cpp"],
[("max message",S+"structure/SpecialFactors.cpp MessageMAP"),("kind of last propagation",S+"structure/bases/BeliefAware.cpp wouldNeedPropagation")],
[("last propagation","kind of the messages currently stored",H+"structure/bases/BeliefAware.h")],["getMAP, getHiddenSetMAP"])

p("C08","Joint marginals of connected subgroups are exact, in the requested order",
"For a set of variables whose hidden members lie in acyclic parts of the model and, within each part, are directly linked to each other as a connected subtree, the joint marginal is (up to scale) the exact conditional joint distribution given the current evidences, laid out in the order of the requested group. Observed members contribute the indicator of their value, in any number, and members in different parts are independent.",
["inputs","histories"],"all subgroups and their orders, all mixes of hidden and observed members, all histories",
"tests request a few pairs and triples of hidden variables on one symmetric model, never more than one observed member",
[S+"structure/QueryManager.cpp",S+"factor/Factor.cpp"],
[("contribution gathering",S+"structure/QueryManager.cpp getJointMarginalDistribution"),("permutation to the requested order",S+"factor/Factor.cpp cloneWithPermutedGroup")],(),["getJointMarginalDistribution by group and by names"])

p("C09","Answers depend only on the current content of the model, never on its past",
"At any point of any history the answers of a model equal those of a model freshly built with the same factors, weights and evidences: no earlier query, query of the other kind, evidence that was set, changed or removed, earlier weight or insertion order can be seen in them. Repeating a query without intervening change gives the same answer.",
["histories"],"all interleavings of insertions, evidence updates/removals, weight updates, sum/MAP/joint queries, sampling and gradient computations, on acyclic and cyclic models",
"tests run straight-line scripts with at most two evidence changes; stale caches need specific interleavings to show",
[S+"structure/EvidenceManager.cpp",S+"structure/bases/BeliefAware.cpp",S+"structure/bases/FactorsAware.cpp",S+"trainable/FactorsTunableManager.cpp",S+"structure/Types.cpp"],
[("belief reset",H+"structure/bases/BeliefAware.h resetBelief"),("unary cache reset",S+"structure/EvidenceManager.cpp"),("topology cache reset",S+"structure/bases/FactorsAware.cpp")],
[("merged unaries, connectivity, last propagation","the three caches",H+"structure/Types.h")],["all queries"])

p("C10","The propagation report is truthful and cyclic models stay consistent",
"After a query the propagation report tells the kind of propagation done and lists exactly the connected parts of the hidden variables with their sizes, each classified as tree if and only if it has no cycle; evidences that cut all cycles make the model a tree with exact answers. A propagation over trees is always reported as completed, one over a cycle is reported as completed only if it converged within the configured number of iterations (never when that number is 0), and for weakly coupled cycles it completes with normalised marginals close to the exact ones and consistent with the pairwise joints.",
["inputs","histories","configurations"],"all graph shapes, evidence sets, iteration limits and histories",
"tests look at the report of one or two fixed graphs and check one loop",
[S+"structure/bases/BeliefAware.cpp",S+"structure/BaselineLoopyPropagator.cpp",S+"structure/Types.cpp"],
[("tree detection by message scheduling",S+"structure/bases/BeliefAware.cpp message_passing"),("cluster computation",S+"structure/Types.cpp compute_clusters"),("loopy iteration",S+"structure/BaselineLoopyPropagator.cpp")],
[("last propagation","the report",H+"structure/Types.h PropagationResult")],["getLastPropagationResult, hasPropagationResult, setPropagationContext"])

p("C11","Results do not depend on the number of threads",
"For every model, evidence set and history, marginals, MAP values, joint marginals and gradients computed with any positive number of threads equal (within rounding; within the convergence tolerance on cyclic models) those computed with one thread, whatever the scheduling of the threads, and the call with many threads leaves the model as usable as before.",
["schedules","configurations","inputs"],"all thread counts, thread schedules, models and queries",
"tests compare two thread counts on one model and only observe the schedules that happen to occur",
[S+"structure/bases/BeliefAware.cpp",S+"structure/BaselineLoopyPropagator.cpp",S+"structure/bases/PoolAware.cpp",S+"model/RandomField.cpp",S+"model/ConditionalRandomField.cpp"],
[("batches of independent messages",S+"structure/BaselineLoopyPropagator.cpp compute_loopy_order"),("ready messages per round",S+"structure/bases/BeliefAware.cpp message_passing"),("barrier of the pool",S+"structure/bases/PoolAware.cpp parallelFor")],(),["queries and gradients with a thread count"])

p("C12","The worker pool runs every task exactly once before returning",
"For every pool size and list of tasks (also empty, shorter or longer than the pool), each task of a parallel call is executed exactly once, entirely between the start and the return of the call, receives a worker index lower than the pool size, and two tasks running at the same time never have the same index. Concurrent parallel calls on one pool never overlap each other's tasks, every call returns, and a pool can be destroyed at any time after its calls returned; a pool of size 0 is rejected.",
["schedules","configurations"],"all interleavings of workers, callers, construction and destruction; all pool sizes and task counts",
"tests run a pool once per size with timing checks; they see only the schedules that happen to occur",
[S+"structure/bases/PoolAware.cpp",H+"structure/bases/PoolAware.h"],
[("per worker task pointer as hand-off and completion flag",S+"structure/bases/PoolAware.cpp"),("call mutex",S+"structure/bases/PoolAware.cpp parallelFor")],
[("to_process","batch being processed by a worker, null when idle",H+"structure/bases/PoolAware.h"),("life","workers keep running",H+"structure/bases/PoolAware.h")],["parallelFor, constructor, destructor"])

p("C13","Evidence can be set, changed and removed in any order with exact effect",
"Setting an evidence moves that variable, and only it, to the observed set with the given value, setting it again replaces the value, and removing one, several or all evidences moves exactly those variables back to the hidden set; afterwards an observed variable is certain and every hidden variable is distributed as conditioned on exactly the current evidences, including when observed variables are adjacent. Setting an unknown variable or an out-of-range value, or removing a variable that is not observed, is rejected.",
["histories","inputs"],"all histories of evidence operations by variable or by name, single or in sets, on all graphs including those with adjacent observed variables and factors inserted between observed variables",
"tests set two or three evidences on fixed graphs and never remove one of two adjacent evidences",
[S+"structure/EvidenceManager.cpp",S+"structure/Types.cpp",S+"structure/bases/FactorsAware.cpp"],
[("connection disabling/activation",S+"structure/Types.cpp Node::disable/activate"),("cluster split and recomputation",S+"structure/EvidenceManager.cpp")],
[("disabled connections","edges cut by an evidence and the marginalised evidence",H+"structure/Types.h")],["setEvidence, removeEvidence(s), removeAllEvidences"])

p("C14","Gibbs samples have the promised shape and respect evidences and seeds",
"Sampling returns exactly the requested number of combinations, each with one in-range value per variable in the order of the reported variables, with every observed variable at its observed value; with the same seed and one thread two calls on an unchanged model return the same samples. The numbers of burn-in and of in-between iterations asked for are respected, so that the samples drawn every k iterations are those of the same one-thread chain observed every k-th iteration. This holds for any number of threads, evidence set and graph.",
["inputs","configurations","schedules"],"all models, evidence sets, thread counts, seeds and sampling parameters (also 0 samples, 0 burn-in)",
"tests draw samples from two fixed models with fixed parameters and look at frequencies only",
[S+"structure/GibbsSampler.cpp",H+"structure/GibbsSampler.h"],
[("combination buffer and evidences",S+"structure/GibbsSampler.cpp makeSamplerNodes"),("seeding per engine",S+"structure/GibbsSampler.cpp make_sampling_tasks"),("iteration counts",S+"structure/GibbsSampler.cpp makeSamples")],(),["makeSamples"])

p("C15","Gibbs sampling draws from the model conditioned on the evidences",
"Each drawn value follows the conditional distribution of its variable given the current values of its neighbours and the evidences, no two directly connected variables are ever resampled at the same time, and on models where the chain mixes the sample frequencies converge to the exact conditional distribution, for any number of threads. A discrete draw never returns a value of probability 0 and returns values with the given probabilities.",
["inputs","schedules","histories"],"all models, evidence sets, thread counts and schedules; all discrete distributions and seeds",
"tests compare frequencies on two symmetric models; rare wrong draws and simultaneous updates do not show up there",
[S+"structure/GibbsSampler.cpp"],
[("conditional by marginalising neighbours",S+"structure/GibbsSampler.cpp make_sampling_task"),("batches of non adjacent nodes",S+"structure/GibbsSampler.cpp make_sampling_tasks"),("inverse cumulative draw",S+"structure/GibbsSampler.cpp sampleFromDiscrete")],(),["makeSamples, sampleFromDiscrete"])

p("C16","Weights of tunable factors are per-cluster, ordered and immediately effective",
"The tunable clusters list every tunable factor exactly once, factors in the same cluster always have the same weight, and getting or setting weights uses one value per cluster in the order of the reported clusters; a factor inserted as sharing its weight joins the cluster owning the named group and takes that cluster's weight. After weights are set every answer reflects the new weights, whatever was asked before and whichever variables are observed; a wrong number of weights, or sharing with an unknown group, is rejected.",
["histories","inputs"],"all orders of inserting unary/binary tunable factors with and without sharing, of weight updates, evidences and queries",
"tests set weights on one model once and read them back",
[S+"trainable/FactorsTunableManager.cpp",S+"trainable/tuners/CompositeTuner.cpp",S+"trainable/tuners/BaseTuner.cpp"],
[("tuner list and composite tuners",S+"trainable/FactorsTunableManager.cpp"),("belief reset on weight change",S+"trainable/FactorsTunableManager.cpp setWeights")],
[("tuners","ordered clusters of tunable factors",H+"trainable/FactorsTunableManager.h")],["getTunableClusters, getTunableFactors, getWeights, setWeights, set_ones"])

p("C17","The random-field gradient is exact on acyclic models",
"For every acyclic random field, weights and training set, each component of the gradient is the mean of the summed raw images of the cluster's factors over the training samples minus their exact expectation under the model without evidences, in the order of the clusters. It depends only on the current weights, factors and the samples of the given iterator, not on earlier gradients, evidences or training sets.",
["inputs","histories"],"all trees, factor tables, weights, sharing patterns, training sets and histories",
"tests compare a few gradients on fixed symmetric models and mostly check that training converges",
[S+"model/RandomField.cpp",S+"trainable/tuners/BaseTuner.cpp",S+"trainable/tuners/BinaryTuner.cpp",S+"trainable/tuners/UnaryTuner.cpp",S+"trainable/tuners/CompositeTuner.cpp"],
[("data term",S+"trainable/tuners/BaseTuner.cpp getGradientAlpha"),("model term",S+"trainable/tuners getGradientBeta")],(),["getWeightsGradient"])

p("C18","Conditional random fields: fixed evidence set, ordered values, exact gradient",
"A conditional random field is built exactly from sources with at least one evidence and no tunable factor lying only on observed variables, and takes over factors, weights, clusters and evidences. Setting its evidence values assigns the k-th value to the k-th reported observed variable, and rejects a wrong number of values or an out-of-range value. On acyclic hidden parts its gradient is, per cluster, the sample mean of the raw images minus the mean over the samples of their exact expectation given that sample's evidence values.",
["inputs","histories"],"all sources with any number of evidences (in any insertion order), tables, weights, training sets",
"tests use fixed sources with symmetric factors; the order of several evidences is not checked",
[S+"model/ConditionalRandomField.cpp",S+"model/HiddenObservedTuner.cpp"],
[("evidence positions",S+"model/ConditionalRandomField.cpp"),("tuner replacement",S+"model/ConditionalRandomField.cpp replaceIfNeeded"),("hidden-observed tuner",S+"model/HiddenObservedTuner.cpp")],(),["constructors, setEvidences, getWeightsGradient"])

p("C19","Conditional training sets cover the evidence values as requested",
"With full range, the training set made by a conditional random field contains for every combination of evidence values exactly the requested number of samples carrying those values; with a smaller range it contains exactly that number of samples for each of a non-empty set of distinct evidence combinations, at least as many as the requested share of them rounded down, and never fails for a percentage in [0,1] while others are rejected. Every sample lists in-range values in the order of the reported variables.",
["inputs","configurations"],"all evidence sets and sizes, percentages, sampling parameters and thread counts",
"tests make one training set with all combinations",
[S+"model/ConditionalRandomField.cpp"],[("evidence range stepping",S+"model/ConditionalRandomField.cpp makeTrainSet")],(),["makeTrainSet"])

p("C20","Copying and absorbing models preserves content with the requested sharing",
"A model constructed from, or absorbing, another one gets all its factors, tunable clusters with their weights and sharing, and evidences, so it answers every query as the source (exponential factors become constant ones in a model without tunables); the source is unchanged. With deep copies later weight or structure changes on one side never show on the other; with shallow copies the factor objects are shared, so weights read on either side are the same, while evidences and structure stay independent.",
["histories","inputs"],"all source models and all later histories on the source and on the copy",
"tests absorb one model and compare the number of factors",
[S+"model/RandomField.cpp",S+"model/Graph.cpp",S+"model/ConditionalRandomField.cpp",S+"trainable/FactorsTunableManager.cpp",H+"structure/FactorsConstManager.h"],
[("absorb",S+"model/RandomField.cpp"),("cluster absorption",S+"trainable/FactorsTunableManager.cpp absorbTunableClusters")],(),["copy constructors, absorb, absorbConstFactors, absorbTunableFactors, absorbTunableClusters"])

p("C21","JSON export followed by import reproduces the model",
"Exporting any model to JSON (in memory or to a file) and importing it into an empty model yields the same variables with their sizes, evidences, factors with the same images, weights, tunability and weight-sharing clusters, hence the same answers; variable names with any characters and images or weights of any magnitude survive. Exporting does not change the model, and malformed content (missing tags, unknown variables, more than two variables, repeated variables, negative or out-of-range images, unknown sharing groups, unreadable files) is rejected.",
["inputs","histories"],"all models, names, images, weights, sharing patterns and evidence sets",
"tests round-trip fixed models with simple names and round numbers",
[S+"io/json/Exporter.cpp",S+"io/json/Importer.cpp",S+"io/Utils.cpp"],
[("export",S+"io/json/Exporter.cpp convert"),("import",S+"io/json/Importer.cpp convert"),("deferred sharing",S+"io/Utils.cpp importCumulatedTunable")],(),["Exporter, Importer"])

p("C22","Training sets and text files are read back exactly",
"A training set holds exactly the given combinations in order, and is rejected when empty or when its combinations are empty or differ in length; a full iterator visits all of them once in order, and a partial iterator visits exactly floor(percentage x size) members of it and reports that number, percentages outside (0,1] being rejected. A training set or factor read from a text file contains exactly the rows of the file, whether or not it ends with a newline; missing files and rows of different length are rejected.",
["inputs","configurations"],"all training sets, percentages and file contents",
"tests construct two training sets; the import of training sets from file is never run",
[S+"trainable/TrainSet.cpp",S+"io/TrainSetImport.cpp",S+"io/Utils.cpp",S+"io/Utils.h"],
[("validation",S+"trainable/TrainSet.cpp"),("row parsing",S+"io/Utils.cpp parse_combination_image"),("line iteration",S+"io/Utils.h for_each_line")],(),["TrainSet, makeIterator, makeSubSetIterator, import_train_set, import_values"])

p("C23","A rejected call leaves the model exactly as it was",
"Every call on a model that is rejected with an error (invalid, duplicated or conflicting factors, unknown sharing group, unknown variables, invalid or missing evidences, also within a set, wrong number of weights or values, zero threads) leaves variables, factors, clusters, weights and evidences unchanged, and every later call behaves as if the rejected one had not been made.",
["histories","fault_sequences"],"all histories with rejected calls interleaved at every point",
"tests check that errors are thrown, never the state of the model afterwards",
[S+"structure/bases/FactorsAware.cpp",S+"structure/EvidenceManager.cpp",S+"trainable/FactorsTunableManager.cpp",S+"structure/bases/PoolAware.cpp",S+"model/ConditionalRandomField.cpp"],
[("validation before mutation",S+"structure/bases/FactorsAware.cpp")],(),["every mutating call and query of a model"])

p("C24","Inference stays finite and accurate on large models and extreme images",
"Marginals and MAP values remain finite and accurate on models of hundreds of variables: long chains, variables with very many neighbours or very many unary factors, and factors whose images are all very small or all very large never make an answer degenerate. Marginals are always non-negative, finite and sum to 1, even for evidences that the model deems impossible.",
["inputs","configurations"],"all sizes and shapes of acyclic models up to hundreds of variables, factors scaled by many orders of magnitude, impossible evidences",
"tests use models of at most about ten variables with images around 1",
[S+"structure/SpecialFactors.cpp",S+"structure/Types.cpp",S+"factor/Immutable.cpp"],
[("normalisation of merged unaries and messages",S+"structure/SpecialFactors.cpp MergedUnaries")],(),["getMarginalDistribution, getMAP, getHiddenSetMAP"])

p("C25","XML export followed by import reproduces the model",
"Exporting any model to XML (string or file) and importing it into an empty model yields the same variables with their sizes, evidences, factors with the same images, weights, tunability and weight-sharing clusters, hence the same answers, with images or weights of any magnitude. Exporting does not change the model, and malformed content (missing attributes, unknown or repeated variables, more than two variables, out-of-range images, unknown sharing groups, unreadable files) is rejected.",
["inputs","histories"],"all models, images, weights, sharing patterns and evidence sets",
"the XML converter is off in the default build: no test runs it",
[S+"io/xml/Exporter.cpp",S+"io/xml/Importer.cpp",S+"io/Utils.cpp"],
[("export",S+"io/xml/Exporter.cpp convert"),("import",S+"io/xml/Importer.cpp convert"),("deferred sharing",S+"io/Utils.cpp importCumulatedTunable")],(),["xml Exporter, xml Importer"])

p("C26","Training shows the trainer the exact weights and gradient of the model",
"Training a model with any iterative trainer exposes to it, at every point of the session, the current weights of the model and the exact opposite of the likelihood gradient on the training set (or, with a partial iteration, on a random subset of the requested size), and applies to the model exactly the weights the trainer chooses. The model keeps the last weights and answers later queries with them.",
["histories","inputs"],"all models, training sets, percentages, thread counts and sequences of weights chosen by the trainer",
"the trainer library is not available in the default build: no test runs a training session",
[S+"trainable/ModelTrainer.cpp",H+"trainable/ModelTrainer.h",S+"model/RandomField.cpp"],
[("session",S+"trainable/ModelTrainer.cpp train_model")],(),["train_model"])

p("C27","Distinct models used at the same time by different threads do not interfere",
"Whatever several threads do at the same time, each with models of its own (building, evidences, weights, queries, gradients, samples, files), every call has the outcome it has when the thread is alone, without data races. The same holds for queries and evidences on models sharing factors, as long as nobody changes those factors or their weights.",
["schedules","histories"],"all histories in each thread and all interleavings of the threads",
"the tests use one model at a time in one thread",
[S+"structure/bases/PoolAware.cpp",S+"structure/Types.cpp",S+"structure/SpecialFactors.cpp",S+"structure/GibbsSampler.cpp",S+"factor/Function.cpp",S+"trainable/TrainSet.cpp"],
[("no state outside the models",S+"structure/Types.cpp updateMessage (the only static is constant)"),("read only access to shared factors",S+"factor/Function.cpp findTransformed")],(),["all the calls of the models"])

p("C28","The factors the propagation is made of denote what they stand for",
"For any unary factors over a variable and any binary factor: merging gives (up to a scale) the product of the images in whatever order and however often it is normalized, a message gives (up to a scale) the sum or the maximum, over the values of the sender, of the product of the two images, an evidence gives exactly the images having that value, an indicator gives 1 for its value and 0 otherwise, and results can be used again as inputs of the others. The difference of two of them is the sum of the absolute differences of their distributions. Merging anything not over the same single variable, indicators of values out of range, and factors which are not binary where a binary one is needed, are rejected without changing anything.",
["inputs","histories"],"all images, plain or exponential, of any scale, and all ways of chaining the operations",
"the tests try each of them on one or two fixed factors",
[S+"structure/SpecialFactors.cpp",H+"structure/SpecialFactors.h"],
[("merged images",S+"structure/SpecialFactors.cpp MergableFunction::merge, normalize"),("messages",S+"structure/SpecialFactors.cpp fill_message")],(),["MergedUnaries","Evidence","Indicator","MessageSUM","MessageMAP","UnaryFactor::diff"])

with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    jsonschema.validate(x,sch)
    n=x["statement"].count(". ")+1
    if n>3: print("sentences",x["id"],n)
