"""Single source of the property list (properties.jsonl) and of MANIFEST.json."""
C = "subprojects/ufjfmltk-core/include/ufjfmltk/core/"
CS = "subprojects/ufjfmltk-core/src/"
K = "subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/"
R = "subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/"
E = "subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/"
L = "subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/"
F = "subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/"
V = "subprojects/ufjfmltk-valid/include/ufjfmltk/valid/"
G = "subprojects/ufjfmltk-visual/include/ufjfmltk/visual/"
PROPS = []


def P(id, title, statement, over, text, why, files, mech, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, **kw))


TB = " Trusts clang's parse of the sources (explicit template instantiations over double; float in the thorough tier) and the analysis itself; undecidable sites are reported as undecided and never alarm."

P("P01", "Thread pool shared state is race free",
  "Everything the thread pool shares between its workers and its clients is either an atomic or is read and written only while the pool's queue lock is held. This holds for every number of workers and every interleaving of submissions, waiting, pausing, resetting and destruction.",
  ["schedules"], "all interleavings of worker and client threads", "tests run a pool once per case on whatever schedule occurs; a missing lock shows only under rare interleavings",
  [C + "ThreadPool.hpp"], [("queue lock around the task queue, atomic counters and flags", C + "ThreadPool.hpp")],
  technique="interprocedural lockset analysis over control-flow graphs (held locks, worker/client phases)",
  note="Every access to a member of a class that starts threads or owns a mutex is classified by held locks and by whether workers may run; pairs of conflicting accesses without a common lock, split updates of atomics, tasks modifying non-atomic captures and tasks run under the lock are reported. Element-wise disjointness of parallel loops belongs to P03." + TB)
P("P02", "Every submitted pool task runs once and is awaited",
  "Each task given to the thread pool is executed exactly once, the future returned for it always receives the task's value or its exception, and a parallel loop covers every index of its range exactly once. Waiting for the pool, resetting it or destroying it does not return before all running tasks have finished and, unless the pool is paused, all queued ones.",
  ["schedules", "inputs"], "all schedules, all numbers of tasks, block counts and loop ranges, tasks that throw", "no test submits throwing tasks, odd ranges, or destroys a pool with pending work",
  [C + "ThreadPool.hpp"], [("task counters, promise fulfilment, wait and join", C + "ThreadPool.hpp")],
  technique="interprocedural typestate analysis over control-flow graphs (task, queue, promise and life-cycle automata); block bounds from value graphs",
  note="Automata for counting/queueing, taking/running/finishing, waiting, stop/join/restart and promise fulfilment run over all paths with callees inlined by summaries; the block bounds of the parallel loop are reduced to terms and compared with a partition of the range over small ranges, block counts and thread counts." + TB)
P("P03", "Parallel computations write disjoint results",
  "Whenever the library splits a computation over worker threads, two different work items never write the same element, no work item reads what another writes, and the results are read only after all work items finished. The result is therefore the same for every number of threads.",
  ["schedules", "inputs"], "all thread counts and schedules", "the tests never compare thread counts and cannot reproduce a data race on demand",
  [C + "DistanceMatrix.hpp", K + "KNNClassifier.hpp"], [("each work item owns its rows of the distance matrix", C + "DistanceMatrix.hpp")],
  technique="interprocedural effect analysis: addresses written and read by a work item as terms over its index, intersected between work items",
  note="The body of every task started by library code is reduced to its list of accesses (address term, value term, conditions, loops, callees inlined); addresses of different work items are intersected for several divisions of a small index range and permuted point ids, values and ranges are checked not to depend on block limits or the number of threads, and uses before the await are searched on the control-flow graph." + TB)
P("P04", "A seed determines every randomised result",
  "With the same inputs and the same non-zero seed, every randomised operation of the library (shuffling, splitting, folds, sampling, synthetic data, training, ensembles, clustering) makes the same random choices, whatever was drawn earlier in the process. Every generator an operation draws from is put into a state computed from the operation's seed alone, the seed is handed on to the operations and member learners it uses, and neither the clock nor a hardware random source is consulted for a seed unless none was given (seed 0).",
  ["histories", "inputs"], "all seeds, inputs and earlier uses of the generator in the same process", "tests use one fixed seed per process and never repeat an operation after other random operations",
  [C + "Random.hpp", CS + "Random.cpp", C + "Data.hpp", V + "Validation.hpp"], [("the generator is initialised from the operation's seed before use", CS + "Random.cpp")],
  technique="interprocedural typestate (generator seeded before drawn) and seed data-flow evaluated on the syntax tree for several seeds",
  note="Seed expressions at generator constructions, seeding calls, calls of seeded operations and seed members are evaluated for several seeds (entropy, earlier-call, zero and seed-independent values are violations); a typestate automaton follows the shared generator through every operation with the branches that need seed 0 pruned; draws inside pool tasks, static generators, shadowed seeds and unseeded member learners are reported." + TB)
P("P05", "Copies of a dataset are complete and independent",
  "Copying a dataset (copy construction, assignment, copy, or handing it by value or reference to a learner) or copy-constructing a point carries over every attribute, and no later change made through one of the two is visible through the other. Operations that produce a new dataset from an existing one (splitting, sampling, selecting features, inserting points of another dataset) give it points of its own.",
  ["histories"], "all sequences of modifications after a copy", "tests compare two small copies right after copying and never modify them",
  [C + "Data.hpp", C + "Point.hpp"], [("element-wise cloning of points and member-wise copying of attributes", C + "Data.hpp")],
  technique="interprocedural value graphs of copy operations (attribute coverage, element-wise provenance) and ownership/escape analysis of point pointers",
  note="For every copy operation the value left in each member is compared with the source's member and the point vector must consist of freshly allocated clones, one per source point; an effect analysis with freshness tracking decides for every operation returning or filling a dataset whether it can hold a point owned by another one. Copies of trained models are not part of this property." + TB)
P("P06", "Dataset bookkeeping matches the stored points",
  "After any sequence of point insertions, removals, label updates, copies, joins, feature removals and clears, a dataset's reported size, emptiness, index, class list, class names and class distribution describe exactly the points it stores, label by label. An operation that rejects its argument (a point or dataset of another dimension, an index out of range, an absent id, the only point or feature left) leaves the dataset as it was.",
  ["histories"], "all operation sequences and arguments, including failing ones", "tests insert and remove a handful of points and look at one counter",
  [C + "Data.hpp"], [("counters and class tables updated with the point vector", C + "Data.hpp")],
  technique="affine-relation (Karr) analysis of container sizes, counters and per-label ghost counts, path-sensitive and interprocedural; invariants proved inductively over the public operations",
  note="Every public operation is analysed from a dataset in which the relations hold; at the end of every path the affine space of sizes, counters and label accounts must entail them again. Loops are solved by affine hull, unmodelled operations taint what they may change and yield undecided, never an alarm. Rejections are analysed from situations given by constants. Bulk replacements (copy, join, recount) are accounted by totals, not label by label." + TB)
P("P07", "Operations do not modify the data they are given",
  "Training, prediction, distance, kernel, statistics, validation, ranking and transformation operations leave the points and labels of the datasets passed to them unchanged, except the operations documented to modify their argument. In particular predicting never changes the trained model's training data.",
  ["inputs", "histories"], "all learners, datasets and call sequences", "tests do not compare datasets before and after training, predicting or validating",
  [C + "Data.hpp", V + "Validation.hpp", E + "PerceptronCommittee.hpp"], [("working copies are made before relabelling or removing features", V + "Validation.hpp")],
  technique="interprocedural ownership and effect (frame) analysis: writes to points and datasets reachable from parameters or the model, against a frame table",
  note="Effect summaries give for every operation the objects it may write (points are shared, so const does not protect them), with freshly made copies told apart from shared points; every write to a coordinate, label, weight or id, and every structural change, of an argument or of the training set is a violation unless the frame table (documented mutators) allows it. Counters, index caches, multipliers set by training and the visiting order are not part of the frame." + TB)
P("P08", "Malformed dataset files are rejected, not misread",
  "Loading a dataset from a file that is missing, empty, ragged, or of an unknown format ends with an error or an empty dataset, never with an out-of-range access, an endless loop or a partly filled dataset reported as loaded. Every supported format goes to its own reader and each reader closes what it opens.",
  ["inputs", "fault_sequences"], "all file contents and paths", "tests load three well formed files",
  [C + "Data.hpp", "subprojects/ufjfmltk-core/src/Utils.cpp"], [("open checks, row length checks, type dispatch", C + "Data.hpp")])
P("P09", "Predictions reject points of the wrong dimension",
  "Every linear or kernel model, classifier or regressor, compares the size of a point with the dimension it was trained on before it reads any coordinate, and answers a point of another size with the error value 0 instead of reading out of range.",
  ["inputs"], "all points and models", "tests only evaluate points taken from the training data",
  [K + "PrimalClassifier.hpp", K + "DualClassifier.hpp", R + "PrimalRegressor.hpp", R + "DualRegressor.hpp"], [("dimension test at the start of evaluation", K + "PrimalClassifier.hpp")],
  technique="interprocedural value-graph construction; the guard condition and the value outside it are compared with the reference",
  note="The value graph of every evaluate function of a linear or kernel model is compared with 'if the sizes agree then the decision rule else 0', and the term left when the guard is false must contain no coordinate of the point." + TB)
P("P10", "The raw decision value is returned when asked for",
  "Every binary linear or kernel classifier returns the unthresholded decision value when raw output is requested, and otherwise 1 for a non-negative and -1 for a negative decision value. One-vs-all requests raw output from its members and answers the class with the largest value; in one-vs-one every pair of classes gives one vote by its member's label.",
  ["inputs"], "all points, all binary classifiers", "tests only check accuracy of thresholded labels",
  [K + "PrimalClassifier.hpp", K + "DualClassifier.hpp", K + "OneVsAll.hpp", K + "OneVsOne.hpp"], [("threshold applied last", K + "PrimalClassifier.hpp")],
  technique="interprocedural value-graph construction compared with reference formulas per raw/label mode",
  note="Value graphs of evaluate with the raw flag set and cleared are compared with the decision value and its thresholded form; the multi-class learners' loops are resolved to argmax and vote sums with the members' predictions as uninterpreted functions." + TB)
P("P11", "Training loops respect their limits",
  "Every iterative training procedure stops when a limit it is configured with (iterations, epochs, updates or time, as far as the learner supports them) is reached, whatever the data looks like, and does not stop on a limit before it is reached. No training loop can run forever on data it cannot fit.",
  ["inputs"], "all datasets, including inseparable ones, and all limits", "tests train on small benign data where convergence ends the loop",
  [K + "Perceptron.hpp", K + "IMA.hpp", K + "SMO.hpp", R + "LMS.hpp", L + "KMeans.hpp"], [("limit tests in the training loops", K + "Perceptron.hpp")],
  technique="termination analysis on control-flow graphs: natural loops, exit tests, progress and reset of counters, freshness of clock reads",
  note="Every natural loop reachable from a training entry point must make progress towards an unchanging bound on every pass, follow a list, or leave on a configured limit. For the main loop of each learner each limit test (also through flags and helper functions) is evaluated around the limit, the quantity compared must be counted wherever a pass is made or the model changes, never reset inside the loop, and the clock must be started before and read inside it. Loops that end by chance (rejection of random draws) are undecided." + TB)
P("P12", "Configured hyper-parameters take effect",
  "Every hyper-parameter, seed, verbosity or strategy a user passes to a constructor or setter is stored unchanged in the object it configures and read by the operations that follow, and each getter reports the value that was set. Learners that train through an inner learner hand their rate, norm, kernel and limits on to it, and copying a learner keeps every setting.",
  ["configurations"], "all constructor and setter parameters of all learners", "tests use default settings and observe accuracy only",
  [K + "Perceptron.hpp", K + "IMA.hpp", C + "Learner.hpp", C + "Kernel.hpp", E + "VotingClassifier.hpp", R + "LMS.hpp"], [("member initialisation from parameters", K + "Perceptron.hpp"), ("setters", C + "Learner.hpp")],
  technique="interprocedural value graphs of constructors, setters, getters and copies (parameter-to-member data-flow); field-read reachability; hand-over of settings to inner learners",
  note="For every user-written constructor and setter the value left in every member is computed as a term over the parameters; a parameter must be the whole value of the member it belongs to. Getters must return that member, the operations of the class must read it, IMA learners must give it to their inner trainers, and user-written copies must carry it. Trained state (solution, support vectors) is not a setting." + TB)
P("P13", "No operation reads an undefined value",
  "No object of the library can be observed with an uninitialised numeric, boolean or pointer member after any of its constructors, no local is read before it is assigned, and every value-returning operation returns a value on every path.",
  ["inputs", "configurations"], "all constructors and all paths", "undefined values usually happen to be zero in a test run",
  [K + "OneVsAll.hpp", F + "RFE.hpp", F + "Golub.hpp", G + "Visualization.hpp", E + "VotingClassifier.hpp"], [("member initialisers", C + "Learner.hpp")],
  technique="definite-initialisation data-flow over control-flow graphs (members through constructors and the methods they call, locals along paths with boolean correlation, returning paths)",
  note="For every constructor, written or compiler-provided, of every concrete class the set of members certainly given a value (initialisers, in-class initialisers, base constructors, assignments on all paths of the body and of the methods it calls) is compared with its scalar and pointer members; every scalar local declared without a value is followed along all paths to its reads; every predecessor of a function's exit must return a value, throw or end the process." + TB)
P("P14", "Kernel values and matrices follow their definitions",
  "The kernel value of two points is the documented function of their coordinates and the kernel parameter for every kernel type (with and without a left-out dimension), and the computed kernel matrix and the H matrices hold exactly that value, times both labels for H, for every pair of points. The kernel norms use the weights and labels of each pair, and changing the type or parameter or asking for recomputation makes the next computation rebuild the matrix.",
  ["inputs"], "all points, kernel types and parameters", "tests compute one kernel matrix and check its size",
  [C + "Kernel.hpp"], [("kernel function switch and matrix fill", C + "Kernel.hpp")],
  technique="interprocedural value-graph construction with array comprehensions, compared with reference formulas per kernel type",
  note="Per kernel type, the value of the kernel function, of every element [i][j] of the three matrices, of the norms, and the cache flag after every mutator are compared with their definitions." + TB)
P("P16", "Splits and folds partition the dataset",
  "Splitting a dataset, by number of parts (stratified or not) or by class, puts every point into exactly one part: by class into the part of its label, otherwise into parts of nearly equal size. In every fold of a k-fold split (k at least 2), and in a train/test pair, each part belongs either to the training or to the test set, and over all folds each part is the test set exactly once. Repeated folding performs as many complete foldings as executions were asked for.",
  ["inputs"], "all datasets, numbers of parts, class sets and flags", "tests compare the sizes of the folds of one dataset",
  [C + "Data.hpp", V + "Validation.hpp"], [("splitting, folding and pairing loops", V + "Validation.hpp")],
  technique="interprocedural value-graph construction of the insertion events (target part, source position, loop range), reduced to counting functions and compared with one",
  note="Every insertion of a point or part into a dataset is taken from the trace of the function with its conditions and loop ranges; the number of times a point (a part) is handed out is a sum over these and has to be one; circular indices are closed forms. The part of a point is tabulated for small sizes to compare the sizes of parts. What shuffle and join do to the points of one dataset belongs to P05 and P06." + TB)
P("P29", "Predictions follow the decision rule of the model",
  "A linear model predicts the bias plus the dot product of weights and point, a dual model the bias plus the kernel sum weighted by multiplier and label over its training points, the nearest-neighbour classifier the majority label (first class on ties) and the nearest-neighbour regressor the mean value of the k nearest training points (all of them if there are fewer). One-vs-all takes the class of the largest member value, one-vs-one the class with most votes, and weight vectors recovered from a dual solution are the sums of multiplier, label and point they are defined as.",
  ["inputs"], "all models and points", "tests only bound accuracy from below on a few benign datasets",
  [K + "PrimalClassifier.hpp", K + "DualClassifier.hpp", K + "KNNClassifier.hpp", R + "KNNRegressor.hpp", R + "Metrics.hpp"], [("evaluate of each learner", K + "PrimalClassifier.hpp")],
  technique="interprocedural value-graph construction (sorted permutations, argmax and vote loops resolved) compared with reference formulas",
  note="The value graph of every evaluate function, of the prediction probability of KNN, of the weight recovery functions and of the mean squared error is compared with its definition." + TB)
P("P15", "Distances compute the dissimilarity they are named after",
  "Each distance function returns the published value of the dissimilarity it is named after, for all points of equal dimension on which it is defined. The symmetric dissimilarities do not depend on the order of their arguments and are zero for identical points, except those whose definition says otherwise.",
  ["inputs"], "all pairs of points of equal dimension in the domain of the dissimilarity", "no test evaluates more than the Euclidean distance",
  [C + "DistanceMetric.hpp", C + "Point.hpp"], [("one functor per dissimilarity", C + "DistanceMetric.hpp")],
  technique="interprocedural value-graph construction to algebraic normal form, compared with reference formulas",
  note="Every distance functor's returned expression, with all library helpers inlined, is reduced to a normal form and compared with the published formula (38 metrics), with itself under argument exchange, and with zero under argument equality." + TB)
P("P22", "Point arithmetic is element-wise and outlives its operands",
  "Every arithmetic or mathematical operation on points yields, in each coordinate, that operation applied to the operands' coordinates, and the reductions (sum, dot product, norm, minimum, maximum) equal their definitions, for all points of equal size. A lazily evaluated result owns its scalars and sub-expressions, no library operation returns or keeps one that refers to points that no longer exist, and scaling or shifting a point by one of its own coordinates uses that coordinate's original value.",
  ["inputs", "programs"], "all points and all compositions of operators", "tests add and multiply a few fixed points",
  [C + "Point.hpp", C + "ExprOps.hpp", C + "ExprScalar.hpp", C + "ExprTraits.hpp"], [("expression templates", C + "ExprOps.hpp")],
  technique="interprocedural value-graph construction to element-wise normal form, plus a lifetime lint on lazy expression nodes",
  note="Every operator, function, compound assignment and reduction over points is reduced to the value of coordinate i and compared with the operation it is named after; every lazy expression node is checked to hold scalars by value and no lazy expression over locals or temporaries is returned or kept." + TB)
P("P24", "Validation figures follow their definitions",
  "The counts, accuracy, error, precision, recall, specificity and F-score of the metrics report and the classification report, the confusion matrix (rows true classes, columns predictions) and its accuracy, and the accuracy function equal their textbook definitions on the predictions made. Cross-validation reports the mean over all folds of the percentage of misclassified test points, repeated cross-validation the mean over all executions, and each printed figure is the one its heading names.",
  ["inputs"], "all prediction vectors, class sets and fold counts", "tests only require an accuracy above a bound",
  [V + "Validation.hpp"], [("counting loops and ratios of the report functions", V + "Validation.hpp")],
  technique="interprocedural value-graph construction (struct members, nested counting loops) compared with reference formulas; provenance of the confusion matrix indices; heading/operand lint on printed figures",
  note="Every member of the returned reports, every accuracy figure and the k-fold error are reduced to counting sums over predictions (uninterpreted) and labels and compared with the definitions; the confusion matrix update is checked for index provenance, increment and coverage." + TB)
P("P30", "One training step applies the update rule of the learner",
  "When a training pass of PerceptronPrimal, PerceptronDual, the fixed-margin perceptrons (primal with a q-norm, and dual), IMApFixedMargin, BalancedPerceptron or LMSPrimal visits a point, the weights, bias, norm and multipliers change exactly as the learner's rule says for a mistake (for the margin, for the LMS: for every point) and stay unchanged otherwise. A pass visits one position of the training set after the other, and reordering the visiting sequence only exchanges two entries. An initial solution is measured with its own weights.",
  ["inputs", "histories"], "all weights, biases, norms, multipliers, points, labels, rates and margins", "tests train on one dataset and bound the accuracy from below: a wrong factor in a rule still converges there",
  ["subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp", "subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp", "subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/LMS.hpp"], [("training loops", "subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp")],
  technique="one-iteration transformer of the training loop extracted as a value graph (loop-carried state as free symbols) and compared with the reference update rule",
  note="The state after visiting one arbitrary point is built as a term over the state before it, for every learner in the list, and compared with the reference rule; the visiting order is checked as a permutation step. The infinity-norm rule (q = -1) and convergence are not covered." + TB)

P("P18", "Memory and handles are released exactly once",
  "Every block of memory and every file, pipe or directory handle that a library class or function acquires itself (by new, popen, opendir, mkstemp and the like) is released exactly once and in the matching form: by the time its owner is destroyed for members, over any history of calls and copies, and by the time the function returns normally for locals. Nothing is used after it was released, nothing handed in by the caller is released, and no member, returned pointer or reference outlives the local or temporary it refers to. Classes owned through a base pointer have a virtual destructor.",
  ["histories", "inputs"], "all histories of public operations on each owning class, all paths of each function", "tests neither count allocations nor copy the owning classes",
  [K + "SMO.hpp", K + "DualClassifier.hpp", F + "AOS.hpp", G + "Visualization.hpp", C + "ThreadPool.hpp"], [("alpha list of SMO", K + "SMO.hpp"), ("gnuplot session", G + "Visualization.hpp")],
  technique="typestate (ownership automata over object histories: least fixed point of constructor exits under all public methods, then the destructor) and path-sensitive data-flow for locals, with release summaries of callees and copy rules",
  note="Member pointers and handles move through null/owned/borrowed/released states; locals through acquired/handed on/released with aliases; smart pointers must take over fresh allocations of the matching form. Paths that leave a function by exception are not followed, a pointer handed to another function counts as handed on, and the search nodes that the AOS heap and hash share are followed only inside each class." + TB)
P("P19", "Generated points follow their construction",
  "Every point SMOTE adds lies on the segment between a point of the minority class and one of its k nearest distinct neighbours within that class, and carries that class's label. The synthetic datasets follow their construction for all arguments: each blob gets its number of points, drawn normally around its own centre with its own deviation and labelled by its blob, each class of the spirals its equal share on its own rotated arm, each regression target the dot product with the returned coefficients plus bias and noise. A number drawn between two limits uses these limits, the lower one first.",
  ["inputs"], "all datasets, numbers of neighbours, centres, sizes, deviations and draws", "tests only count the points of one generated dataset",
  [C + "Sampling.hpp", CS + "Datasets.cpp", CS + "Random.cpp", C + "Random.hpp"], [("artificial points", C + "Sampling.hpp"), ("synthetic datasets", CS + "Datasets.cpp")],
  technique="interprocedural value-graph construction with each random draw reduced to its distribution's parameters, compared with the construction; ranges of the loops around each insertion",
  note="Coordinates and labels of the inserted points, the number of insertions, the neighbour selection of SMOTE (set looked up, order, range, distinctness) and the limits of the drawing helpers are compared as terms. That the generator's stream is the seeded one is P04. The choice of borderline points and the replication factor are not covered." + TB)
P("P20", "Selections and transformations deliver exactly what was picked",
  "Copying chosen classes takes exactly the points of those classes, joining appends every point of the other dataset in order, selecting, inserting or removing features takes or removes exactly the coordinates whose name was given (names included), and removing a point removes the one with the given id; every point made on the way takes coordinates, label and weight from one and the same source point. Columns and label vectors hold the value of point i at position i, and normalisation extends every point by a one and divides it by its p-norm. Sampling draws from every class its share of the sample (at least one), from the points of that class, never twice without replacement.",
  ["inputs"], "all datasets, class lists, feature names, ids, exponents and sample sizes", "tests only count the points or features of a result",
  [C + "Data.hpp"], [("classesCopy, join, features, columns, normalize, sampling", C + "Data.hpp")],
  technique="value-graph of the stores and erasures of each operation: guards, source and target positions and values compared with the definition as terms",
  note="Per operation the stores into points, the removal guards, the positions recorded and the loop ranges are compared. removePoints and the arithmetic of skipped (non-positive) names in selectFeatures are followed only in part. Derived tables (class counts, ids, index) are P06." + TB)
P("P17", "K-means assigns to the nearest centre and moves centres to the mean",
  "The cluster answered for a point is the position of its nearest centre (the first on ties); assigning the dataset puts every point's position in exactly that cluster and in no other, forgets the previous assignment, and answers the sum of the squared distances to the chosen centres. Every training step assigns all points of the dataset and then moves each centre to the mean of its cluster, leaving it where it is when the cluster is empty, until the cost changes by no more than EPS or a limit is reached. The initial centres are points of the dataset, every one of which can be drawn, and the kmeans++ draw is weighted by the distance to the centre drawn before.",
  ["inputs"], "all datasets, numbers of clusters, centres and draws", "tests only look at one run on one dataset",
  [L + "KMeans.hpp"], [("assign_clusters, compute_centers and train", L + "KMeans.hpp")],
  technique="interprocedural value-graph construction with closed-form captured counters and array comprehensions, compared with reference formulas; event order of the training step",
  note="evaluate, assign_clusters, compute_centers and clusters_variance are compared with their definitions; the writes to the initial centres give the index ranges and weights of the draws; the condition of the training loop is compared as a term. That the result is a good clustering is not covered." + TB)
P("P26", "Feature selection eliminates the features ranked last",
  "The Golub and Fisher filters rank the features by their class separation scores (distance of the class means, squared for Fisher, over the sum of the class standard deviations), recursive elimination by the absolute weight the model trained on the remaining features gives them, each score carrying the name of its own feature. Exactly the lowest ranked features, as many as requested, are removed from a copy of the samples; recursive elimination removes them in steps of the configured jump and goes on exactly until the requested number is gone.",
  ["inputs"], "all datasets, class sizes, final dimensions, depths and jumps", "tests only compare the number of features of one result",
  [F + "Golub.hpp", F + "Fisher.hpp", F + "RFE.hpp"], [("scores, ranking and elimination loops", F + "Golub.hpp")],
  technique="interprocedural value-graph construction: the sort key composed with the stored value is compared with the reference score as an order, the eliminated ranks and list positions are tabulated from the loop ranges",
  note="The key of the sort (comparator composed with the value stored per feature) must order features as the reference score does at common sample points, the comparator must be strict, the name stored with a score must be that feature's name in the dataset at hand, and the set of ranks handed to removeFeatures is tabulated over small dimensions. AOS, the cross-validation stopping rule and the dataset returned after a failed training are not covered." + TB)
P("P27", "Headers, templates and the documented interface compile for every use",
  "Every public header compiles when it is the only one included, and two source files including it link together. Every class template compiles with all its members for double and float, read-only operations work on const datasets, points and kernels, and every learner is a concrete, copyable learner that can be used and destroyed through the common interface.",
  ["programs"], "all public headers, all class templates with their members for double and float, the interface witnesses", "a member of a template is only compiled where a test uses it",
  [C + "Point.hpp", C + "Data.hpp", C + "DistanceMatrix.hpp", E + "AutoWeightedVoting.hpp", C + "Learner.hpp"], [("member templates", C + "Point.hpp")],
  technique="type-level encoding: compile witnesses (explicit instantiations, interface programs, static assertions on type traits) decided by the compiler front end, and a query over emitted symbols",
  note="Each header is type-checked alone and included twice and its emitted strong symbols listed; 53 explicit instantiations and about 130 witness statements and static assertions are type-checked for double and float; thorough also checks each header before all others in both orders. A witness that names a construct which no longer exists is undecided.")
P("P28", "Statistics equal their definitions",
  "The mean, variance, standard deviation and covariance of points and features, the radius of a dataset and the distance between its class centres equal their textbook definitions for every dataset and every choice of ignored feature. They do not depend on the order of the points.",
  ["inputs"], "all datasets, points and ignored features", "tests compare a few figures of one dataset against wide bounds",
  [C + "Statistics.hpp"], [("accumulation loops of the statistics functions", C + "Statistics.hpp")],
  technique="interprocedural value-graph construction with array comprehensions, compared with reference formulas",
  note="The value graph of every function in Statistics.hpp (nested accumulation loops resolved to sums over points and features) is compared with its definition." + TB)
P("P25", "Ensembles answer the weighted majority of trained members",
  "An ensemble answers, for every point, the class of the class list with the largest sum of votes, each member's prediction counting exactly once with its weight (one for hard voting, bagging and the perceptron committee, the configured weights for soft voting, the trained coefficients for AdaBoost), the first class on ties, and a prediction that is no known class counting for none. Training gives every member its training set (bagging: a sample of its own) and trains it exactly once. AdaBoost's initial point weights, error rates, coefficients and normalised weight updates follow SAMME's definitions.",
  ["inputs"], "all points, member predictions, weights and class lists", "tests bound the accuracy of an ensemble from below on one dataset",
  [E + "VotingClassifier.hpp", E + "BaggingClassifier.hpp", E + "AdaBoostClassifier.hpp", E + "PerceptronCommittee.hpp"], [("voting loops and member training", E + "VotingClassifier.hpp")],
  technique="interprocedural value-graph construction (scatter-added votes, argmax) compared with reference formulas; event order of member training (typestate over the trace of calls)",
  note="The value graph of every ensemble's evaluate function and of AdaBoost's error rates, coefficients and weights is compared with its definition; every member must be given its training set and then be trained exactly once on every path." + TB)
