"""Per property: the solver jobs that decide it (harness, bounds, expected situations)."""
COMMON_ASSUMPTIONS = [
    "x86-64 Linux, clang 18 front end, IEEE-754 arithmetic in round-to-nearest without contraction",
    "library calls listed in DESIGN.md (allocation, string, stream and number formatting, environment, files) are modelled; each sampled path is replayed natively against the real library",
]
PROPS = {}
def prop(id, jobs, outside="", assumptions=()):
    PROPS[id] = dict(jobs=jobs, outside=outside, assumptions=list(assumptions))
def job(name, src, what, bq, bt=None, reach=(), **kw):
    return dict(name=name, src=src, what=what, bounds=dict(quick=bq, thorough=bt or bq), reach=list(reach), **kw)

prop("C02", [
    job("model", "c02.cpp", "RoundRobin::getIndex and the exploration phase of DecisionTree/RandomForest (ModelFactory)", "every number of policies 1..2^31-16, <=6 selections, any features", "<=12 selections", ["explored", "wrapped"], tdefs=["-DSTEPS=12"]),
    job("regions", "c02.cpp", "two regions interleaved in every order through begin/select/end", "4 executions in every order over two regions, 1-3 and 2-3 policies, any finite feature and metric", "6 executions", ["ran"], qdefs=["-DREGIONS", "-DSTEPS=4"], tdefs=["-DREGIONS", "-DSTEPS=6"]),
    job("cycles", "c02.cpp", "RoundRobin::getIndex over whole cycles", "34 numbers of policies between 1 and 1000, two cycles and a bit, any feature", None, ["cycled"], qdefs=["-DCYCLES"], tdefs=["-DCYCLES"]),
], "longer selection sequences than the bound (the model's state is one counter, any prefix of the cycle is covered by small policy counts)")
prop("C03", [job("static", "c03.cpp", "Static, ModelFactory, Region::parsePolicyModel for Static and StaticRegion", "policy text of <=3 digits with sign, every number of policies; two listed regions with policies of 1-2 digits, four region names", None, ["object", "text", "negative", "per region", "refused"])],
     "policy texts longer than 3 digits (std::stoi), non-numeric policy text")
prop("C04", [job("insert-merge", "c04.cpp", "Dataset::insert, merge, toVectorOfTuples against a linear-search reference",
                 "<=3 inserts of <=2-feature vectors, then merge into a dataset of <=2 entries (<=4 entries in all); all finite float features, all int policies, all finite double metrics",
                 "<=4 inserts", ["aggregated", "distinct", "merged overlapping"], tdefs=["-DNI=4"], qdefs=["-DNI=3"])],
     "more inserts; NaN or infinite features or metrics")
prop("C05", [job("reduce", "c05.cpp", "Dataset::findMinMetricPolicyByFeatures", "<=4 inserts, <=1 feature, all finite features, all policies, all finite metrics", "<=5 inserts, <=2 features", ["several policies for one feature vector", "several feature vectors"], tdefs=["-DNI=5", "-DNF=2"])],
     "more entries; NaN or infinite values")
prop("C06", [
    job("model", "c06.cpp", "Dataset reduction, DecisionTreeImpl::train/build_tree/split/predict", "<=3 measurements of 1 feature, all finite floats, all policies, all finite metrics; depth = number of measurements", "<=4 measurements, <=2 features", ["several entries"], tdefs=["-DNI=4", "-DNF=2"]),
    job("region", "c06.cpp", "the same through Region begin/setFeature/getPolicyIndex/end and Region::train / Apollo::train", "<=3 executions of 1 feature, round-robin exploration over 3 policies", "<=4 executions", ["several entries"], qdefs=["-DREGION"], tdefs=["-DREGION", "-DNI=4"]),
], "more measurements or features than the bound; NaN and infinite values")
prop("C07", [job("tree", "c07.cpp", "DecisionTreeImpl::train/build_tree/split/compute_gini/save and predict against the samples routed through the stored tree", "<=3 entries of 1 feature, depth 0..2, all finite features, all policies", "<=4 entries", ["inner node", "impure leaf"], tdefs=["-DNI=4"])],
     "more entries or features; NaN and infinite features")
prop("C08", [job("roundtrip", "c08.cpp", "DecisionTreeImpl::save/output_tree/parse_tree/load and evaluate_tree", "<=3 entries of 1 feature, depth 0..2, every query value including NaN and infinities; loaded fresh, into an untrained and over a trained tree", "<=4 entries", ["several", "replaced"], tdefs=["-DNI=4"])],
     "larger trees")
prop("C09", [job("roundtrip", "c09.cpp", "RandomForestImpl::save/output_rfc/parse_rfc/load/predict", "<=2 entries of 1 feature, 1-2 trees, 4 policies, every query value", "<=3 entries", ["several", "replaced"], tdefs=["-DNI=3"])],
     "larger forests; bootstrap samples other than those of the library's generator (see C10)")
prop("C10", [job("bootstrap", "c10.cpp", "RandomForestImpl::train/predict with every generator output", "<=2 entries, <=3 trees (<=2 when retrained or of one entry), 3 policies, every generator sequence, every query value", "<=3 entries", ["bootstrap left a pair out", "retrained", "three trees"], tdefs=["-DNI=3"], include="symrand.h")],
     "more trees or entries")
prop("C11", [
    job("regions", "c11.cpp", "Region constructor/destructor with APOLLO_PERSISTENT_DATASETS, Dataset::store/load, Parser", "<=2 executions of <=2 features, all finite features and metrics, three runs, a further measurement in the second, two regions", "<=3 executions", ["several", "two features", "empty", "more"], tdefs=["-DNI=3"]),
    job("text", "c11.cpp", "Dataset::store and Dataset::load on any dataset", "<=2 entries of <=2 features, all finite features and metrics, all policies, stream with default or reduced precision", "<=3 entries", ["several", "two features", "empty"], qdefs=["-DTEXT"], tdefs=["-DTEXT", "-DNI=3"]),
], "more entries or features; NaN and infinite values; a crash while the file is written")
prop("C14", [job("record", "c14.cpp", "Region::begin/setFeature/getPolicyIndex/end in all variants, collectContext, the C interface", "<=2 executions over two regions in every order and interface, then two overlapping executions; 1-2 features, all finite features and metrics", "3 executions, also RandomForest and no features", ["ran", "trained", "not recorded for fixed models without persistence"], tdefs=["-DSTEPS=3", "-DKINDS=4", "-DNFMIN=0"], timeout=400)],
     "overlapping executions of one region (they share the synchronous context by design); metrics of the synchronous timer (C25)")
prop("C16", [job("auto", "c16.cpp", "Region::autoTrain, collectContext, Region::train, Apollo::train", "periods 0..5, every minimum, 4 executions over two regions with 1-2 feature values", "6 executions", ["global period", "region period", "minimum data", "never triggered", "kept"], tdefs=["-DSTEPS=6"])],
     "longer histories, larger periods; PolicyNet, which stays trainable by design")
prop("C17", [
    job("train", "c17.cpp", "Apollo::train, Region::train, __apollo_region_train", "three regions, 4x2 model kinds, <=2 and <=1 measurements of one feature, all finite features and metrics", None, ["trained on its own", "left exploring", "untrainable"]),
    job("stored", "c17c.cpp", "Apollo::train, flushAllRegionMeasurements, Region::train (also forced), __apollo_region_train on persistent datasets", "0-2 stored measurements and 0-1 execution, all finite features and metrics, two steps; then further measurements and forced training", None, ["no measurements", "stored", "run", "both", "forced"]),
    job("refuse", "c17b.cpp", "Region::train without per-region modelling", "<=1 measurement", None, ["refused"]),
], "more measurements; finished pending executions (C15)")
prop("C19", [job("single", "c19.cpp", "Apollo::train with APOLLO_SINGLE_MODEL, Dataset merge, DecisionTree training", "three regions with <=2, <=1 and 0 measurements of one feature, all finite features and metrics, 4 policies; the first region may have been trained on its own measurements before", "<=3 measurements", ["no data", "trained", "several", "trained before"], tdefs=["-DNI=3"]),
    job("pending", "c19b.cpp", "Apollo::train with APOLLO_SINGLE_MODEL and device-timed executions", "two regions, one feature vector, one finished device execution not collected yet, any metric and device time", None, ["trained"], defines=["-DENABLE_CUDA"]),
],
     "more measurements or features; single RandomForest models")
prop("C01", [job("models", "c01.cpp", "every policy model's getIndex through ModelFactory and Region", "any number of policies for untrained models, <=3 for trained ones; <=2 measurements of the region's policies; every feature value including NaN and infinities; every random draw; every probability of a network", "<=3 measurements", ["untrained", "trained", "network", "region", "lookup", "fixed"], tdefs=["-DNI=3"], include="symrand.h")],
     "measurements that name policies the region does not have (files of a run with more policies); replayed policy files (C29)")
def c12jobs():
    r = []
    for what, nm in ((0, "dataset"), (1, "tree")):
        for mode, mn, bd in ((0, "window", "a well-formed text with any 2 bytes at any place"), (1, "truncated", "cut at any place, any last byte"), (2, "long", "tokens of 61-67 characters, the last two any bytes"), (3, "short", "<=4 arbitrary bytes")):
            d = ["-DMODE=%d" % mode, "-DWHAT=%d" % what]
            r.append(job(nm + "-" + mn, "c12.cpp", "Dataset::load and Parser" if what == 0 else "DecisionTreeImpl::parse_tree/parse_node/parse_data and Parser", bd, bd.replace("any 2 bytes", "any 3 bytes"), ["stopped with a reported error"], qdefs=d, tdefs=d + (["-DWIN=3"] if mode == 0 else []), strings=True))
    return r
prop("C12", c12jobs(), "texts that differ from a well-formed one in more places; use of a loaded tree whose content is inconsistent")
prop("C13", [
    job("text", "c13.cpp", "Region::parsePolicyModel on any text", "<=7 arbitrary characters after the model name, or as the model name", "<=9 characters", ["parameters", "name only"], tdefs=["-DLEN=9"], strings=True),
    job("keys", "c13.cpp", "Region constructor, validate, ModelFactory", "6 models, <=2 of 8 keys, region or global string", None, ["accepted", "refused", "global"], qdefs=["-DKNOWN"], tdefs=["-DKNOWN"], include="fixrand.h"),
], "longer texts")
prop("C15", [job(n, "c15.cpp", "Region::begin/end/collectPendingContexts/train/~Region with device timing, %s" % t, "<=2 device-timed executions among %d operations (begin, end in any order, end with a metric, collect, train, synchronous execution), found unfinished <=1 time each (once more while the region is destroyed); all finite features, elapsed times and metrics" % s, "<=3 executions, 6 operations", ["all recorded", "out of order", "destroyed with pending executions", "given metric", "synchronous execution in between", "trained"], defines=[d], qdefs=["-DSTEPS=%d" % s, "-DLATE=1"], tdefs=["-DSTEPS=6", "-DNEX=3", "-DLATE=2"]) for n, t, d, s in (("cuda", "TimerCudaAsync", "-DENABLE_CUDA", 5), ("hip", "TimerHipAsync", "-DENABLE_HIP", 4))],
     "the device runtime itself (its event interface is modelled: an event pair is unfinished for any bounded time, then its elapsed time is fixed); device errors")
prop("C25", [job("sec%d" % b, "c25.cpp", "TimerSync::start/stop/isDone and the metric recorded by Region::end", "two executions; every non-decreasing pair of monotonic readings below 2^%d s with nanoseconds" % b, None, ["first", "again", "region"], qdefs=["-DSECBITS=%d" % b], tdefs=["-DSECBITS=%d" % b]) for b in (16, 31)],
     "clock readings of 2^31 seconds and more; a monotonic clock that runs backwards")
prop("C28", [
    job("settings", "c28.cpp", "Apollo::Apollo, safeGetEnv, createDir", "the four mode settings each absent or any 1-digit signed number, in every combination; every other setting absent or any 3-digit signed number; policy model text of <=4 arbitrary characters; 3 directory names per directory setting", None, ["refused", "started", "given", "model", "threshold", "directories"], strings=True),
    job("settings-mpi", "c28.cpp", "the same in the MPI configuration", "the same, rank 1 of 2", None, ["refused", "started", "given", "model", "threshold", "directories"], strings=True, defines=["-DENABLE_MPI"]),
], "non-numeric texts for numeric settings (std::stoi rejects them); file system errors")
prop("C18", [
    job("two-ranks", "c18.cpp", "Apollo::train with APOLLO_COLLECTIVE_TRAINING, gatherCollectiveTrainingData, packMeasurements, get_mpi_pack_measure_size", "2 ranks seen from either side, <=3 regions of 0, 1 and 3 features on the sending and <=2 on the receiving rank, <=2 measurements each; all finite features and metrics, 3 policies", "<=3 measurements", ["other rank sends", "merged", "unknown region ignored"], defines=["-DENABLE_MPI"], qdefs=["-DNE=2"], tdefs=["-DNE=3"]),
    job("three-ranks", "c18.cpp", "the same", "3 ranks seen from the middle one, <=2 regions, <=1 measurement per region", "3 ranks, 3 regions, <=2 measurements", ["other rank sends", "merged", "unknown region ignored"], defines=["-DENABLE_MPI"], qdefs=["-DRANKS=3", "-DME=1", "-DNREG=2"], tdefs=["-DRANKS=3", "-DNE=2"]),
],
     "more measurements, ranks or features; features vectors whose length is not the region's number of features; machines whose MPI packs data with padding; the MPI library itself (its packing and exchange calls are modelled)")
prop("C29", [job("replay", "c29.cpp", "Optimal, DatasetMap, Region::Region, ModelFactory", "policy files of <=4 policies of any value up to 10^6; datasets of <=3 entries with 1-2 features, all finite features and metrics; every queried feature vector; loaded or trained again", "<=4 entries", ["stopped", "followed", "looked up", "loaded", "trained again"], tdefs=["-DNI=4"])],
     "malformed policy files")
prop("C30", [job("store-load", "c30.cpp", "Region::train with APOLLO_STORE_MODELS, Region::Region with load, DecisionTree and RandomForest store/load", "<=2 executions of one feature, all finite features and metrics, every query value; two names, ranks, steps and directory settings; load by name, by file and by constructor argument", "<=3 executions", ["missing", "stored", "retrained", "reused"], tdefs=["-DNI=3"])],
     "larger models; PolicyNet (C21); file system errors")
prop("C27", [job("trace", "c27.cpp", "Region::Region (header), Region::collectContext (rows), Region::~Region", "3 executions over two regions of 0-2 features, three models, all finite features and metrics, given or timed metrics", "4 executions", ["traced", "untraced"], tdefs=["-DSTEPS=4"]),
    job("device", "c27.cpp", "the same for device-timed executions", "1-3 overlapping device-timed executions ended in every order, found finished at once or later, any finite feature and device time up to 10^9 ms", None, ["traced", "out of order"], defines=["-DENABLE_CUDA"])],
     "rows of executions pending when the program is killed; region or model names with spaces; digits beyond the six written by default")
prop("C22", [
    job("layers", "c22.cpp", "FCLayer, ReLU, Softmax", "layers of 1-2 inputs and outputs, batches of 1-2 samples, two batches in turn, all values up to 10^6 in magnitude", "batches of 1-3", ["layer", "rectifier", "softmax"], qdefs=["-DBATCH=2", "-DSTEPS=1", "-DPART0=0", "-DPART1=2"], tdefs=["-DBATCH=3", "-DSTEPS=1", "-DPART0=0", "-DPART1=2"], include="fixrand.h", without=["PolicyNet.cpp"]),
    job("layers-exact", "c22.cpp", "FCLayer, ReLU, Softmax with integer values, for which every order of summation is exact", "the same sizes, all integers up to 8 in magnitude", "batches of 1-3", ["layer", "rectifier", "softmax"], qdefs=["-DINTS", "-DBATCH=2", "-DSTEPS=1", "-DPART0=0", "-DPART1=2"], tdefs=["-DINTS", "-DBATCH=3", "-DSTEPS=1", "-DPART0=0", "-DPART1=2"], include="fixrand.h", without=["PolicyNet.cpp"]),
    job("network", "c22.cpp", "Net::forward, Net::trainStep, FCLayer::step", "networks of 1-2 inputs and hidden units with three sets of fixed hidden parameters and inputs, any output parameters and rewards up to 10^6, batches of 1-2, one update", "two updates", ["network"], qdefs=["-DBATCH=2", "-DSTEPS=1", "-DPART0=3", "-DPART1=3"], tdefs=["-DBATCH=2", "-DSTEPS=2", "-DPART0=3", "-DPART1=3"], include="fixrand.h", without=["PolicyNet.cpp"]),
], "larger layers and batches; rectifier inputs that are exactly zero (no derivative there); differences below 0.001")
prop("C20", [
    job("encoding", "c20.cpp", "PolicyNet::getIndex, PolicyNet::train, trainNet", "features of any 3 adjacent bits at 6 places up to bit 63 with or without a fraction, alone or beside a second feature; fixed parameters", None, ["selected", "trained"], qdefs=["-DMODE=0"], tdefs=["-DMODE=0"], include="netrand.h"),
    job("histories", "c20.cpp", "the probability cache over selections, training and loading", "4 operations in every order over three feature vectors", "5 operations", ["selected", "trained", "loaded"], qdefs=["-DMODE=1", "-DSTEPS=4"], tdefs=["-DMODE=1", "-DSTEPS=5"], include="netrand.h"),
    job("several", "c20.cpp", "the probability cache for vectors of two features", "every pair of feature vectors over five values, in turn", None, ["selected"], qdefs=["-DMODE=3"], tdefs=["-DMODE=3"], include="netrand.h"),
    job("threshold", "c20.cpp", "the reward average and its threshold", "two training steps of 1-2 measurements, all metrics in [0,10], three thresholds, two decay settings", None, ["untrained", "below", "above"], qdefs=["-DMODE=2", "-DSTEPS=2"], tdefs=["-DMODE=2", "-DSTEPS=3"], include="netrand.h"),
], "negative feature values and values of 2^64 and more (their conversion is undefined); averages within 10^-6 of the threshold; the sampler itself (C01)")
prop("C21", [
    job("bytes", "c21.cpp", "PolicyNet::store, PolicyNet::load", "networks of 0-1 features and 2-3 policies, every content of the file", None, ["used before", "inputs", "no inputs"], qdefs=["-DBYTES"], tdefs=["-DBYTES"], include="netrand.h"),
    job("behaviour", "c21.cpp", "PolicyNet::store, load, getIndex, trainNet", "0-2 training steps of 1-2 measurements before storing, all metrics in [0,10], two thresholds, further training", "0-3 training steps", ["above", "below", "continued"], qdefs=["-DSTEPS=2"], tdefs=["-DSTEPS=3"], include="netrand.h"),
], "networks of more features; files of another shape")

prop("C23", [
    job("sets", "c23.cpp", "kokkosp_declare_output_type, associate_candidates, kokkosp_request_values", "sets of 0-3 integers, reals or strings of 0-63 characters, any values", "sets of 0-4", ["integers", "reals", "strings", "no candidates"], qdefs=["-DPART=0"], tdefs=["-DPART=0", "-DMAXN=4"], kokkos=True),
    job("integers", "c23.cpp", "count_range_slices, form_set_from_range for integer ranges", "any bounds up to 2^40 in magnitude with six fixed steps up to 10*2^30, up to 2^16 with any step up to 15, ranges of at most 4 values, every openness", "at most 6 values", ["range", "several", "empty"], qdefs=["-DPART=1"], tdefs=["-DPART=1", "-DMAXN=5"], kokkos=True),
    job("reals", "c23.cpp", "count_range_slices, form_set_from_range for real ranges with a step", "any lower bound up to 1000 in magnitude, four steps, ranges of at most 3 steps, every openness", "at most 4 steps", ["range", "empty"], qdefs=["-DPART=2"], tdefs=["-DPART=2", "-DMAXN=4"], kokkos=True),
    job("continuous", "c23.cpp", "the same without a step", "any lower bound up to 1000 in magnitude, any width from 0.001, the first, second, middle and last candidate", None, ["range"], qdefs=["-DPART=3"], tdefs=["-DPART=3"], kokkos=True),
    job("names", "c23.cpp", "kokkosp_declare_output_type, kokkosp_declare_input_type, get_region_name", "names of 0, 1, 31, 62-66 and 130 characters", None, ["named"], qdefs=["-DPART=4"], tdefs=["-DPART=4"], kokkos=True),
], "larger sets and ranges; bounds whose arithmetic overflows or whose spacing exceeds the step; steps that are not positive")

prop("C24", [
    job("combinations", "c24.cpp", "kokkosp_request_values", "1-3 variables of 1-3 (one of up to 4) consecutive candidates from any integer up to 2^40 in magnitude, two models", None, ["covered"], qdefs=["-DPART=0"], tdefs=["-DPART=0"], kokkos=True),
    job("contexts", "c24.cpp", "kokkosp_request_values, kokkosp_end_context, variableToFloat, Region recording", "4 operations (request, end, end of an unknown context) in every order over two tuning problems, new and reused context ids, any integer context value up to 2^40 and real one up to 10^6 in magnitude", "5 operations", ["requested", "ended", "unknown"], qdefs=["-DPART=1"], tdefs=["-DPART=1", "-DSTEPS=5"], kokkos=True),
    job("regions", "c24.cpp", "the identification of tuning problems by their variables", "6 requests in every order over two tuning problems that differ in one input or output variable, any integer context value up to 1000", "7 requests", ["two"], qdefs=["-DPART=3"], tdefs=["-DPART=3", "-DSTEPS=5"], kokkos=True),
    job("stored", "c24.cpp", "the lookup of stored models by kokkosp_request_values", "two measurements of any integer context value up to 1000, short and long variable names", None, ["reused"], qdefs=["-DPART=2"], tdefs=["-DPART=2"], kokkos=True),
], "overlapping contexts of one tuning problem (they share the region's context by design); more than 50 variables; string context values (hashed); stored models of a problem of the same name but other candidates")

prop("C26", [job("compiled", "c26.cpp", "DecisionTreeImpl::generate_source, compile_and_link_jit_evaluate_function, train, load, predict with ENABLE_JIT_DTREE", "trees of <=2 entries of 1-2 features, depth 0..2, all finite features, every finite query; then retrained on 1-2 entries, or stored and loaded fresh or over another tree", "<=3 entries", ["split", "retrained", "loaded", "loaded over"], defines=["-DENABLE_JIT_DTREE"], tdefs=["-DNI=3"])],
     "larger trees; forests (their trees use the same code); NaN and infinite queries; the compiler and the dynamic linker (a stand-in for them in the engine, the real ones in every replay); several processes compiling at once")

prop("C31", [
    job("histories", "c31.cpp", "Region, Apollo, Dataset, DecisionTree, RandomForest, RoundRobin, PolicyNet and device timers over a whole run", "4 operations (create a region, synchronous execution, device execution begun or ended, training of all or one region) in every order over two regions and four models, all finite features and metrics (fixed ones for PolicyNet), then teardown", "5 operations", ["executed", "device", "trained", "torn down", "torn down after device executions"], defines=["-DENABLE_CUDA"], qdefs=["-DSTEPS=4"], tdefs=["-DSTEPS=5"], include="netrand.h"),
    job("leaks", "c31.cpp", "Region::begin/end/collectPendingContexts/destroyRegionContext", "five executions with the same features, synchronous or device-timed, trained or not, three models; live allocations counted", None, ["device", "synchronous"], defines=["-DENABLE_CUDA"], qdefs=["-DLEAK"], tdefs=["-DLEAK"], include="netrand.h"),
    job("models", "c31.cpp", "DecisionTreeImpl, RandomForestImpl, PolicyNet and Net: construction, training, retraining, loading and destruction", "models trained once or twice on 0-2 measurements, stored and loaded into themselves or another one; all finite features (fixed ones for PolicyNet); three lives each, live allocations counted", "0-3 measurements", ["tree", "forest", "network"], qdefs=["-DMODELS"], tdefs=["-DMODELS", "-DNM=3"], include="netrand.h"),
], "longer histories; executions that are never ended; regions deleted by the program (the runtime owns them)")
prop("C34", [job("reports", "c34.cpp", "Apollo::~Apollo (execution report), Region::getPolicyIndex (selection report), Region::train (best policies), Apollo::Apollo and Region::collectContext (global trace)", "3 executions over two regions of 0-2 features in every order, two models, then training and one more execution; features up to 10^6 in magnitude, all finite metrics; reports on and off", "4 executions", ["best policies", "selections", "executions", "traced", "nothing asked for"], tdefs=["-DSTEPS=4"])],
     "features beyond 10^6 in magnitude (written as int); digits beyond the six written by default; region names with spaces or commas; the exchange report of collective training")
