#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays valid JSON)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

R, A, D = "src/Region.cpp", "src/Apollo.cpp", "src/Dataset.cpp"
DT, RF = "src/models/impl/DecisionTreeImpl.cpp", "src/models/impl/RandomForestImpl.cpp"
PN, MF, PA = "src/models/PolicyNet.cpp", "src/ModelFactory.cpp", "src/helpers/Parser.cpp"
KK = "src/connectors/kokkos/kokkos-connector.cpp"

prop("C01", "A selected policy is always one of the region's policies",
 "Whatever policy model a region uses (fixed, round-robin, random, decision tree, random forest, policy network, measurement lookup), and whatever feature values, measurements of its own policies and training happened before, the policy handed to the application is at least 0 and smaller than the number of policies the region was created with.",
 ["inputs", "histories", "configurations"], "all model kinds, feature vectors, random draws, measured metrics and train/select histories",
 "The tests select with one model kind, a couple of fixed feature values and three policies; an out-of-range index needs particular random draws, class sets or retraining.",
 [R, MF, "src/models/Random.cpp", "src/models/RoundRobin.cpp", "src/models/Static.cpp", DT, RF, PN],
 [("policy selection entry point", R + " Region::getPolicyIndex"), ("model selection functions", "src/models/*.cpp getIndex"), ("leaf class lookup", DT + " Node constructor, evaluate_tree")],
 observe=["Region::getPolicyIndex return value"])

prop("C02", "Round-robin exploration tries every policy cyclically from policy 0",
 "A round-robin model returns policies 0, 1, ..., n-1, 0, 1, ... in that order for successive selections of one region, independent of the feature values. The same holds for the exploration phase of trainable models that explore round-robin (also when no exploration model is named), until they are trained.",
 ["inputs", "histories"], "all numbers of policies, feature values and selection histories, with any interleaving of several regions",
 "The overhead and simple tests select a handful of times with fixed features and never look at the order across regions or models.",
 ["src/models/RoundRobin.cpp", MF, "src/models/DecisionTree.cpp", "src/models/RandomForest.cpp"],
 [("cyclic counter", "src/models/RoundRobin.cpp getIndex"), ("default explorer", MF + " createPolicyModel"), ("explore until trained", "src/models/DecisionTree.cpp getIndex")])

prop("C03", "Fixed-policy configuration selects exactly the configured policy",
 "With the static model every selection returns the configured policy for every feature vector: policy 0 when none is configured or when the configured one is not smaller than the number of policies; a negative one is refused. The per-region static model gives each region the policy listed for its own name and refuses a region whose name is not listed.",
 ["inputs", "configurations"], "all configured policy numbers, policy counts, region names and feature vectors",
 "The tests use one or two static policies that are in range; boundary, out-of-range and per-region listings are never configured.",
 [MF, R, "src/models/Static.cpp"],
 [("range handling", MF + " createPolicyModel"), ("per-region lookup", R + " Region::Region"), ("option parsing", R + " Region::parsePolicyModel")])

prop("C04", "Measurements are aggregated per feature vector and policy",
 "A dataset holds exactly one entry per distinct (feature vector, policy) pair; its value is the first measurement for that pair, and each further measurement m of the pair replaces the value v by 0.5*v + 0.5*m, leaving all other entries unchanged. Merging one dataset into another is the same as adding its entries one by one and does not change the merged one.",
 ["inputs", "histories"], "all feature values, policies, metric values and insertion orders, including repeats",
 "Tests insert a few distinct measurements with metrics that make the best policy obvious; wrong keying, averaging or aliasing does not change their outcome.",
 [D, "include/apollo/Dataset.h"],
 [("keyed insert with moving average", D + " Dataset::insert"), ("merge", D + " Dataset::insert(Dataset&)"), ("export", D + " Dataset::toVectorOfTuples")])

prop("C05", "The best policy of a feature vector is the one with the least metric",
 "Reducing a dataset yields each distinct feature vector exactly once, paired with a policy whose recorded metric is the least of all metrics recorded for that feature vector (and that metric), and the lists used for training agree with that map entry by entry.",
 ["inputs", "histories"], "all datasets: feature vectors, policies, metrics (including equal and negative ones)",
 "Tests use clearly separated metrics for at most two feature values.",
 [D], [("reduction to the minimum", D + " Dataset::findMinMetricPolicyByFeatures")])

prop("C06", "A trained decision tree picks the fastest measured policy for seen inputs",
 "After training with enough depth to separate the measured feature vectors, selecting a policy for any feature vector that was measured returns the policy with the least recorded metric for it. This holds for any measured feature values, including nearly equal and very large ones, and both on the model alone and through a region's begin/select/end cycle.",
 ["inputs", "histories"], "all measured feature vectors and metrics up to the stated numbers of samples, features and policies",
 "The decision-tree tests use one feature with widely spaced small integers and at most three policies.",
 [DT, "src/models/DecisionTree.cpp", D, R],
 [("split search", DT + " split"), ("recursive construction", DT + " build_tree"), ("leaf class", DT + " Node constructor"), ("evaluation", DT + " evaluate_tree")],
 observe=["DecisionTree::getIndex", "Region::getPolicyIndex"])

prop("C07", "A depth-limited tree respects its depth and predicts leaf majorities",
 "A decision tree trained with a maximum depth never tests more than that many features on one selection, and returns for each measured feature vector a class that is the most frequent one among the training samples that reach the same leaf. In the stored tree each node's recorded sample count, per-class counts and predicted class describe the samples that reach it, and the two children's counts add up to the parent's.",
 ["inputs", "configurations"], "all training sets and depth limits within the bounds",
 "No test inspects depth or leaf contents; the default depth is only exercised on data that one split separates.",
 [DT], [("depth cut-off", DT + " build_tree"), ("class counts", DT + " get_count_per_class, Node constructor"), ("stored form", DT + " output_node")])

prop("C08", "A stored decision tree reloads as an equivalent tree",
 "Loading a decision-tree file written by this library gives a model that selects the same policy as the stored model for every feature vector, and storing the loaded model again writes the same text. Loading into a model that already holds a tree replaces it completely.",
 ["inputs", "histories"], "all trees trainable within the bounds and all (not only trained) feature vectors",
 "No test stores or loads a model.",
 [DT, PA, "src/helpers/OutputFormatter.cpp"],
 [("writer", DT + " output_tree, output_node"), ("reader", DT + " parse_tree, parse_node, parse_data"), ("token parser", PA)])

prop("C09", "A stored random forest reloads as an equivalent forest",
 "Loading a random-forest file written by this library gives a model with the same number of trees that selects the same policy as the stored model for every feature vector, also when stored after retraining and when loaded over an existing model.",
 ["inputs", "histories"], "all forests trainable within the bounds and all feature vectors",
 "No test stores or loads a model.",
 [RF, DT, PA],
 [("writer", RF + " output_rfc"), ("reader", RF + " parse_rfc"), ("tree reader", DT + " parse_tree")])

prop("C10", "A random forest predicts by plurality over exactly its configured trees",
 "A trained random forest consists of exactly the configured number of trees, each trained on as many samples as the training set has, every sample being a training pair drawn from it; its prediction is the lowest-numbered class with the most tree votes. Training again replaces the trees instead of adding to them.",
 ["inputs", "histories", "configurations"], "all training sets, random draws, tree counts and retraining histories within the bounds",
 "Tests train once with a fixed generator seed on a small separable set, where almost any voting rule gives the same answer.",
 [RF], [("bootstrap sampling", RF + " train"), ("vote", RF + " predict")])

prop("C11", "Persisted measurements survive to the next run unchanged",
 "With dataset persistence enabled, the measurements a region holds when it is destroyed are exactly those a region of the same name starts with in the next run: same feature vectors (any number of features), policies and bit-identical metrics. The text form written for any dataset is accepted by the loader and reproduces the dataset.",
 ["inputs", "histories", "configurations"], "all datasets: any number of features, feature values, policies and metrics",
 "No test enables persistence or reloads a dataset.",
 [D, R, PA], [("writer", D + " Dataset::store"), ("reader", D + " Dataset::load"), ("save at destruction, load at construction", R + " Region::~Region, Region::Region")])

prop("C12", "Malformed model or dataset text never corrupts memory",
 "Whatever bytes a dataset or decision-tree file contains, loading it either succeeds or stops with a reported error (exception or abort); it never reads or writes outside the memory it owns and never loops without end. Tokens longer than the parser's buffer are reported, not overrun.",
 ["inputs"], "all byte strings of bounded length spliced at any point of a valid file",
 "No test loads a file, valid or not.",
 [PA, D, DT], [("bounded token buffer", PA + " Parser::getNextToken"), ("strict expectations", PA + " Parser::parseExpected"), ("end of input", PA + " Parser::getNextToken")])

prop("C13", "Policy-model option strings are parsed faithfully",
 "A policy-model string 'Name,key=value,...' yields exactly that model name and exactly those keys and values (a key without '=' has an empty value, of a repeated key the first counts). A key the named model does not know, or any parameter for a model that takes none, is refused; a string given for the region takes precedence over the global one.",
 ["inputs", "configurations"], "all option strings up to the stated length and number of parameters",
 "Tests pass one or two well-formed strings.",
 [R, MF], [("splitting", R + " Region::parsePolicyModel"), ("key validation", R + " validate"), ("values used by the factory", MF + " createPolicyModel")])

prop("C14", "Every region execution is recorded exactly once with its own data",
 "Each begin/end pair of a region, through the C++ methods with or without an explicit context or metric, or through the C interface, contributes exactly one measurement consisting of the features given in that execution, the policy selected in it and its metric, and advances the region's and the runtime's execution counters by one (the measurement is kept whenever the model can still be trained or datasets are persisted). Features of one execution never leak into another one or into another region.",
 ["histories", "inputs"], "all sequences of executions over several regions and all API variants, all feature values and metrics",
 "Tests run one fixed calling pattern and look only at the selected policy.",
 [R, A], [("context set-up", R + " Region::begin, createRegionContext"), ("collection", R + " Region::collectContext, Region::end"), ("C interface", A + " __apollo_region_*")])

prop("C15", "Asynchronously timed executions are recorded exactly once, none lost",
 "An execution timed on a device is recorded exactly once, after its timer reports completion, with the elapsed device time in seconds and its own features and policy; executions still pending are kept, in any completion order, across later executions, training and region destruction.",
 ["schedules", "histories"], "all completion orders and readiness schedules of the device timers for a bounded number of executions",
 "The device tests need CUDA or HIP hardware and are not built; completion order there is whatever the device does.",
 [R, "src/timers/TimerCudaAsync.cpp", "src/timers/TimerHipAsync.cpp"],
 [("pending list", R + " Region::collectPendingContexts"), ("drain at destruction", R + " Region::~Region"), ("readiness", "src/timers/TimerCudaAsync.cpp isDone")])

prop("C16", "Automatic training happens exactly when configured",
 "A trainable model is trained automatically when, and only when, the configured trigger is reached: the global execution count is a positive multiple of the global period, else the region's execution count is a positive multiple of the per-region period, else the dataset has reached the minimum amount of training data. Until then it explores; once trained, a tree or forest model is not retrained automatically and keeps answering from the trained model.",
 ["histories", "configurations"], "all period and minimum-data settings and execution histories within the bounds, over several regions",
 "Tests use one setting at a time, mostly explicit training calls.",
 [R, A], [("trigger", R + " Region::autoTrain"), ("trainability", "src/models/DecisionTree.cpp train, isTrainable"), ("global training", A + " Apollo::train")])

prop("C17", "Explicit training trains every trainable region on its own measurements",
 "Training the runtime (or one region) first collects finished pending executions, then trains exactly the models that are still trainable and have measurements, each on its own region's dataset; regions without measurements, already trained models and untrainable models are left unchanged. A region asked to train when per-region modelling is off is refused rather than trained.",
 ["histories", "configurations"], "all sets of regions, model kinds and measurement histories within the bounds",
 "Tests train one or two regions that all have data.",
 [R, A], [("region training", R + " Region::train"), ("runtime training", A + " Apollo::train")])

prop("C18", "Collective training delivers every rank's measurements exactly once",
 "In collective training each rank ends with its own measurements plus every other rank's measurements for regions it also has, each delivered once with bit-identical features, policy and metric; measurements for regions unknown to it are ignored and its own are not inserted twice.",
 ["inputs", "histories", "configurations"], "all contents of every rank's datasets (feature counts, values, policies, metrics, region names) for a bounded number of ranks",
 "The only MPI test runs two ranks with one feature and is one fixed history (and fails at the pinned commit for another reason).",
 [A], [("packing", A + " packMeasurements, get_mpi_pack_measure_size"), ("exchange and unpacking", A + " Apollo::gatherCollectiveTrainingData")])

prop("C19", "Single-model training uses the union of all regions' measurements",
 "With one model for all regions, training gives every region a model trained on the merged measurements of all regions, including those of executions that have finished but were not collected yet, so that for every feature vector measured in any region all regions select the policy with the least merged metric. Training with no measurements at all changes nothing.",
 ["histories", "configurations"], "all measurement sets over several regions within the bounds",
 "No test enables the single-model mode.",
 [A, D], [("merge and train", A + " Apollo::train")])

prop("C20", "The policy network selects and trains on the same input encoding",
 "The policy network feeds each feature value as the bits of its integer part, identically when training and when selecting, so equal feature vectors get equal probabilities between two updates and any training or loading makes later selections use the new parameters, never remembered ones. While its average reward is below the configured threshold it selects policy 0 and leaves its parameters alone.",
 ["inputs", "histories"], "all feature values representable as 64-bit unsigned integers and all train/select/load histories within the bounds",
 "The tests never use this model.",
 [PN], [("encoding", PN + " PolicyNet::train, PolicyNet::getIndex"), ("probability cache", PN + " actionProbabilityMap"), ("threshold", PN + " trainNet, getIndex")])

prop("C21", "A stored policy network reloads bit-identically",
 "Storing a policy network and loading the file into another one with the same shape reproduces every parameter and the reward history bit for bit, so both give the same probabilities for every input and continue training alike in reward baseline.",
 ["inputs", "histories"], "all parameter values (every bit pattern) and reward histories",
 "The tests never use this model.",
 [PN], [("binary writer and reader", PN + " PolicyNet::store, PolicyNet::load")])

prop("C22", "The policy network computes its layers' forward and gradient equations",
 "For every input batch the network's fully connected layers compute weights times input plus bias, its rectifiers zero negative values, and its backward pass computes the exact partial derivatives of the layer outputs; the parameter update moves each parameter along its own gradient. Results for one sample do not depend on the other samples of the batch or on earlier batches.",
 ["inputs", "histories"], "all weights, inputs and upstream gradients for bounded layer and batch sizes",
 "The tests never use this model.",
 [PN], [("layers", PN + " FCLayer, ReLU, Softmax")])

prop("C23", "Kokkos tuning candidates cover exactly the declared values",
 "For an output variable declared with a set, the candidates offered are exactly that set in order; for an integer range they are the values lower, lower+step, ... inside the range, honouring open and closed ends; for a real range every candidate lies inside the range. A variable declaration never reads or writes outside its buffers whatever its name.",
 ["inputs"], "all declared sets, ranges (bounds, steps, openness) and names within the bounds",
 "No test loads the Kokkos connector.",
 [KK], [("range sizing", KK + " count_range_slices"), ("candidate generation", KK + " form_set_from_range, associate_candidates"), ("declaration", KK + " kokkosp_declare_output_type")])

prop("C24", "Kokkos requests return candidates and every combination is reachable",
 "Each value returned for a tuning variable is one of its candidates, distinct policy choices give distinct combinations, and each combination of candidates is given by exactly one policy choice. Ending a context records one measurement for the region of that request, with the context variables as features; ending an unknown context does nothing. Requests with the same variables belong to the same region, requests with other variables to another. A tuning problem whose model was stored by an earlier run selects as that model.",
 ["inputs", "histories"], "all candidate-set sizes, numbers of variables, context values and request/end orders within the bounds",
 "No test loads the Kokkos connector.",
 [KK], [("mixed-radix decoding", KK + " kokkosp_request_values"), ("pairing", KK + " tuned_contexts, kokkosp_end_context")])

prop("C25", "The synchronous timer reports the elapsed time",
 "For every pair of monotonic clock readings taken at the start and the end of an execution, the reported metric is never negative and differs from the exact difference by no more than the resolution of a double-precision time stamp.",
 ["inputs", "schedules"], "all non-decreasing pairs of clock readings within the stated range",
 "Tests read the real clock and never check the value.",
 ["src/timers/TimerSync.cpp"], [("conversion and difference", "src/timers/TimerSync.cpp start, stop, isDone")])

prop("C26", "Compiled decision trees select like interpreted ones",
 "When decision trees are compiled to machine code, the generated source tests the same features against the same thresholds and returns the same classes as the tree, for every feature vector, and after retraining or loading the new tree's code is used.",
 ["inputs", "programs"], "all trees trainable within the bounds and all feature vectors",
 "The JIT tests check a tree with one split on small integers.",
 [DT], [("source generation", DT + " generate_source"), ("compile and link", DT + " compile_and_link_jit_evaluate_function")])

prop("C27", "Execution traces have one well-formed row per execution",
 "With tracing enabled each region's trace file has a header naming its columns and one row per recorded execution, in order, with as many fields as the header: rank, model, region, execution number, each feature value, the selected policy and the metric of that execution. Tracing does not change selections or measurements.",
 ["histories", "configurations"], "all execution histories, feature and metric values within the bounds",
 "No test enables tracing.",
 [R], [("header", R + " Region::Region"), ("rows", R + " Region::collectContext")])

prop("C28", "Contradictory configuration is rejected and defaults apply",
 "The runtime starts with the documented defaults for every setting not given, uses every given setting as given, and refuses to start when both or neither of collective and local training, or both or neither of single and per-region modelling, are enabled, or when collective training is requested without MPI support.",
 ["configurations"], "all combinations of settings",
 "Tests run with one or two configurations, all valid.",
 [A, "src/Config.cpp"], [("environment reading and validation", A + " Apollo::Apollo")])

prop("C29", "Replay models follow their recorded policies exactly",
 "The optimal-sequence model returns the policies of its file in file order, one per selection, and stops with an error when they run out. The measurement-lookup model returns for each feature vector of its dataset the policy with the least metric and stops with an error for any other feature vector.",
 ["inputs", "histories"], "all recorded policy lists and datasets within the bounds",
 "No test uses these models.",
 ["src/models/Optimal.cpp", "src/models/DatasetMap.cpp", R],
 [("queue", "src/models/Optimal.cpp"), ("lookup", "src/models/DatasetMap.cpp"), ("file naming", R + " Region::Region")])

prop("C30", "Stored models are found and reused by the next run",
 "With model storing enabled, training a region writes its model under a name formed from model kind, training step, rank and region, plus a latest copy; a region of the same name, model kind and rank created with the load option starts from that latest model, selects exactly as the stored one and is not retrained. A missing model file is reported and stops the program.",
 ["histories", "configurations"], "all region names, ranks and trained models within the bounds",
 "No test stores or loads a model.",
 [R, DT, RF], [("store on training", R + " Region::train"), ("load at construction", R + " Region::Region")])

prop("C31", "Pending and finished work is released exactly once",
 "Over any history of region creation, executions, training, model replacement and runtime teardown, no memory is used after it was released, released twice or accessed out of bounds, contexts of finished executions are released, and retrained, reloaded and destroyed models give back all they held.",
 ["histories"], "all bounded histories of the public API",
 "The tests run short histories without a memory checker.",
 [R, A, DT, PN], [("context lifetime", R + " destroyRegionContext"), ("teardown", A + " Apollo::~Apollo"), ("tree nodes", DT + " ~DecisionTreeImpl")])

prop("C34", "Reports of a run state what happened in it",
 "When asked for, the execution report at the end of a run lists every region once with its number of executions; the selection report has one line per selection, in order, with rank, region, model, the features (as integers) and the selected policy; the run's global trace has one row per execution, in order, with region, execution number, model and policy; and each training of a region reports for every measured feature vector the policy with the least metric and that metric. Reports not asked for are not written, and asking changes neither selections nor measurements nor training.",
 ["histories", "configurations"], "all execution histories, feature and metric values and report settings within the bounds",
 "No test asks for a report.",
 [R, A], [("execution report", A + " Apollo::~Apollo"), ("selection report", R + " Region::getPolicyIndex"), ("best policies", R + " Region::train"), ("global trace", R + " Region::collectContext")])

prop("C32", "The regression-tree timing model predicts recorded execution times",
 "With OpenCV support, the timing model trained on a dataset predicts, for each recorded feature vector and policy, the recorded execution time.",
 ["inputs"], "all datasets",
 "No test enables the OpenCV configuration, whose library does not even compile at the pinned commit.",
 ["src/models/RegressionTree.cpp"], [("training", "src/models/RegressionTree.cpp")])

prop("C33", "Analysis scripts reproduce the measurements of the traces they read",
 "The Python scripts that turn traces into datasets keep, for every feature vector, region and policy, the aggregate of the execution times in the traces they were given.",
 ["inputs"], "all trace files",
 "The scripts have no tests and need packages that are not installed.",
 ["src/python/modeling/create-dataset.py", "src/python/analysis/analyze-traces.py"], [("aggregation", "src/python/modeling/create-dataset.py")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
