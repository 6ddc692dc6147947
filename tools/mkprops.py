#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list of properties, kept as data here)."""
import json, os

P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m) for n, m in state],
                               observe_at=observe, hook_needed=None)))

prop("C01", "Population bookkeeping and size limit hold over every learning history",
     "After every step of any history of supervised or reinforcement learning (covering, updates, evolution, subsumption and deletion included), the reported number of rules and total numerosity of the population equal what is obtained by walking the rules, every rule has numerosity of at least one, no rule occurs twice, and the total numerosity does not exceed the configured population limit. Every rule's error, fitness and set-size estimate stay finite and non-negative, its matching counters satisfy 0 <= times matched <= times evaluated, and its time stamp never lies ahead of the system's clock. With initial population seeding enabled a fresh system holds exactly the configured number of rules, otherwise none.",
     ["histories", "configurations"],
     "every sequence of trials under every combination of rule representation and learning parameters",
     "unit tests sample a handful of short runs; the invariant must survive any interleaving of covering, evolution, subsumption and deletion",
     ["xcsf/clset.c", "xcsf/ea.c", "xcsf/cl.c", "xcsf/xcs_supervised.c", "xcsf/xcs_rl.c"],
     [("clset_add / clset_pset_enforce_limit", "xcsf/clset.c"), ("ea_add / ea_subsume", "xcsf/ea.c"), ("clset_subsumption", "xcsf/clset.c")],
     ["struct XCSF.pset after each trial", "xcs_supervised_fit", "xcs_rl_*"],
     [("pset.size, pset.num", "macro and micro rule counts"), ("Cl.num", "numerosity")])

prop("C02", "The match set is exactly the matching rules and covering guarantees one",
     "For every input, the match set formed during a trial contains exactly the population rules whose condition accepts the input, each once, with match and age counters incremented accordingly. With covering enabled, after formation every action has at least one advocate in the match set (one action: the match set is non-empty); covering adds rules only for actions that lacked one, each new rule accepts the input, advocates that action, and starts with the configured initial error and fitness, numerosity one and zero experience. With covering disabled no rule is ever created and an input nobody accepts yields an empty match set. The running estimates of match-set size and of the best rule's matching fraction move by the learning rate towards the values of each match set formed.",
     ["inputs", "histories", "configurations"],
     "every population, input and number of actions, including when the population is full",
     "tests check one or two hand-made populations",
     ["xcsf/clset.c", "xcsf/cl.c", "xcsf/action.h", "xcsf/condition.h"],
     [("clset_match / clset_cover", "xcsf/clset.c"), ("cl_match, cl_cover", "xcsf/cl.c")],
     ["struct XCSF.mset after clset_match"])

prop("C03", "System prediction is the fitness-weighted mean of the matching rules",
     "For every match set and input, the system prediction for each action and output is the fitness-weighted average of the predictions of the matching rules advocating that action, and zero for an action nobody advocates; an input that nobody matches yields the user-supplied cover value when one is given. The best value reported is the maximum of the prediction array, the greedy action attains that maximum, the exploring action is always one that some matching rule advocates, and the value returned for an action is that action's entry.",
     ["inputs", "histories", "configurations"],
     "every population, input, number of actions and number of outputs",
     "tests check single hand-computed arrays",
     ["xcsf/pa.c", "xcsf/xcs_supervised.c", "xcsf/xcs_rl.c", "xcsf/clset.c"],
     [("pa_build, pa_best_action, pa_rand_action, pa_best_val, pa_val", "xcsf/pa.c"), ("xcs_supervised_predict", "xcsf/xcs_supervised.c")],
     ["xcsf->pa, xcs_supervised_predict output"])

prop("C04", "Predicting and scoring are repeatable and do not change what was learned",
     "Predicting or scoring with a cover value never adds, removes or alters the conditions, predictions, actions, errors, fitnesses, numerosities, experience or time stamps of rules, nor the system clock; asking again for the same inputs, in any order or batch split, gives identical predictions. The score of a data set is the mean of the configured loss between the system prediction for each row and its target, whatever the number of rows, and scoring a random subsample returns the mean over that many rows of the data set drawn uniformly, possibly repeated.",
     ["inputs", "histories", "configurations"],
     "every trained system with rules that carry no internal memory between inputs, every batch of inputs",
     "tests only compare a score with itself on one problem",
     ["xcsf/xcs_supervised.c", "xcsf/clset.c", "xcsf/pa.c"],
     [("xcs_supervised_predict / xcs_supervised_score / xcs_supervised_score_n", "xcsf/xcs_supervised.c")],
     ["rule snapshots before and after", "returned predictions and scores"])

prop("C05", "Rule statistics follow the documented update equations on every trial",
     "On every explore trial each rule of the updated set gets its experience incremented by one, its error moved towards the loss of its own current prediction and its set-size estimate moved towards the set's numerosity, as a plain running mean while experience is below the reciprocal of the learning rate and by the learning rate afterwards; its fitness moves by the learning rate towards its numerosity-weighted share of the set's accuracy, accuracy being one up to the target error and alpha times the power law above it. Rules outside the set are not changed, and supervised exploit trials change no statistic.",
     ["inputs", "histories", "configurations"],
     "every set of rules, target, loss function and learning-parameter setting",
     "tests compute one update by hand",
     ["xcsf/cl.c", "xcsf/clset.c", "xcsf/xcs_supervised.c"],
     [("cl_update, cl_update_fit, cl_acc", "xcsf/cl.c"), ("clset_update, clset_update_fit", "xcsf/clset.c")],
     ["Cl.exp, err, size, fit after clset_update / trials"])

prop("C06", "Evolution runs on schedule and initialises offspring as documented",
     "Evolution acts on a set only when the numerosity-weighted mean time since its members last took part reaches the configured threshold, always advances the clock by one, and stamps all members with the current time when it runs. It then adds exactly the configured number of offspring numerosity, rounded up to an even number because offspring come in pairs (before the population limit is enforced): an unmodified offspring raises its parent's numerosity, a modified one enters as a new rule of numerosity one with zero experience whose error and fitness are the parents' averages (after crossover) or its own parent's, scaled by the configured reductions and whose predictor is its parent's, or a new one when predictors are configured to be reset, or is absorbed by a subsumer when that is enabled. Only rules of the set serve as parents, so with crossover and mutation ineffective offspring are copies of set members.",
     ["histories", "configurations", "inputs"],
     "every set, clock history and evolutionary parameter setting",
     "tests run the algorithm once with fixed seeds",
     ["xcsf/ea.c", "xcsf/clset.c", "xcsf/cl.c"],
     [("ea, ea_init_offspring, ea_add, ea_subsume, ea_select_*", "xcsf/ea.c"), ("clset_mean_time, clset_set_times", "xcsf/clset.c")],
     ["population snapshots before and after ea()"])

prop("C07", "Subsumption only lets accurate, experienced, more general rules absorb others",
     "Whenever a rule disappears into another through set subsumption or offspring subsumption, the absorbing rule is sufficiently experienced and more accurate than the target error, its condition is at least as general and its action compatible, and the absorbed numerosity is added to it so total numerosity is preserved. With subsumption disabled nothing is absorbed. After set subsumption no rule of the set that the most general qualified rule generalises remains in the set or population.",
     ["histories", "configurations", "inputs"],
     "every match set and every representation that supports generality",
     "tests exercise one hand-made pair",
     ["xcsf/clset.c", "xcsf/ea.c", "xcsf/cl.c"],
     [("clset_subsumption", "xcsf/clset.c"), ("ea_subsume", "xcsf/ea.c"), ("cl_subsumer, cl_general", "xcsf/cl.c")],
     ["population snapshots around clset_update and ea()"])

prop("C08", "Deletion removes one numerosity at a time, chosen by the deletion vote",
     "When the population exceeds its limit, deletion reduces total numerosity to exactly the limit by decrementing rules one unit at a time, removing a rule only when it reaches zero, and touching nothing else. Rules that never matched within their probation period go first; otherwise the choice is random with probability proportional to the deletion vote - set-size estimate times numerosity, raised for experienced rules of low fitness - and a rule with zero vote is not chosen while others have one. With compaction enabled and the system error below target, the larger of two such choices is removed.",
     ["histories", "configurations", "inputs"],
     "every population and deletion parameter setting",
     "tests delete from one population; the vote is statistical",
     ["xcsf/clset.c", "xcsf/cl.c"],
     [("clset_pset_delete, clset_pset_roulette, clset_pset_never_match, clset_pset_enforce_limit", "xcsf/clset.c"), ("cl_del_vote", "xcsf/cl.c")],
     ["population snapshots around clset_pset_enforce_limit"])

prop("C09", "Saving and loading a system restores it completely",
     "Saving any system to a file and loading it - into the same system, or into a fresh one with any other settings - restores every parameter, the clock and error state, and every rule with its condition, prediction, action, statistics and internal memory (recurrent state, momentum, current match and prediction); the loaded system gives exactly the same predictions and matches, saves to a byte-identical file, and continues learning from the same random seed exactly like the original. This holds for every representation, including neural networks of every layer type.",
     ["histories", "configurations", "inputs"],
     "every configuration and every trained state",
     "tests round-trip a few fixed configurations and compare a few fields",
     ["xcsf/xcsf.c", "xcsf/param.c", "xcsf/clset.c", "xcsf/cl.c", "xcsf/neural.c", "xcsf/gp.c", "xcsf/dgp.c"],
     [("xcsf_save / xcsf_load", "xcsf/xcsf.c"), ("param_save / param_load", "xcsf/param.c"), ("cl_save / cl_load and the per-type save/load", "xcsf/*.c")],
     ["file bytes, snapshots, predictions, continued learning"])

prop("C10", "Pickling and persistence from Python preserve the model",
     "From Python, pickling and unpickling a model, or saving it and loading it into another model object, yields one with equal parameters, population, predictions, scores and metric-independent state, and both then evolve identically when trained on the same data with the same seed. The in-memory stored population restored by retrieve gives back the predictions the model had when it was stored.",
     ["histories", "configurations", "inputs"],
     "every model reachable through the Python interface",
     "tests pickle two fixed models",
     ["xcsf/pybind_wrapper.cpp", "xcsf/xcsf.c"],
     [("py::pickle, serialize / deserialize", "xcsf/pybind_wrapper.cpp"), ("save / load / store / retrieve", "xcsf/pybind_wrapper.cpp")],
     ["predict, score, json and internal_params of both objects"])

prop("C11", "Rules exported as JSON can be inserted back and behave identically",
     "For rule representations whose import is supported (dummy, interval, ellipsoid, ternary and dynamical-graph conditions; constant, normalised and recursive least-squares predictions; integer actions), exporting a population as JSON and inserting it into an empty system of the same configuration reproduces every rule's condition, prediction, action and statistics to the precision of the text, hence the same matches and predictions. The exported document lists every rule exactly once, in order, with its true values and only the parts asked for; inserted rules increase the population counts by exactly the imported numerosities, within the population limit, and values the document does not mention take their defaults. A rule document that does not fit the system (wrong type, wrong length, wrong dimensions, rates, connections, actions, numerosities or symbols outside their ranges) is refused rather than accepted.",
     ["inputs", "configurations", "histories"],
     "every exportable population, and malformed variants of every exported rule",
     "tests import fixed strings",
     ["xcsf/clset.c", "xcsf/cl.c", "xcsf/cond_*.c", "xcsf/pred_*.c", "xcsf/act_integer.c", "xcsf/dgp.c"],
     [("clset_json_export, clset_json_insert", "xcsf/clset.c"), ("cl_json_export / cl_json_import", "xcsf/cl.c")],
     ["JSON text, snapshots"])

prop("C12", "Storing and retrieving the population is a faithful independent snapshot",
     "Storing the population keeps an independent copy: whatever training, deletion or evolution follows, retrieving brings back the same collection of rules with the conditions, predictions, actions and statistics they had when stored, so the system gives the predictions it gave then (rules without internal memory between inputs; the gain matrices of recursive least squares start afresh). Storing does not alter the current population; retrieving can be repeated only after a new store, storing again replaces what was stored, retrieving without a store changes nothing, and loading a model discards the stored population.",
     ["histories", "configurations"],
     "every sequence of training, store and retrieve operations",
     "tests store once and compare sizes",
     ["xcsf/xcsf.c", "xcsf/cl.c"],
     [("xcsf_store_pset / xcsf_retrieve_pset", "xcsf/xcsf.c"), ("cl_init_copy", "xcsf/cl.c")],
     ["population snapshots and predictions"])

prop("C13", "Results are a deterministic function of seed, data and settings",
     "With the same seed, settings and data, any run of training, prediction and scoring gives bit-identical results each time it is repeated in the same process, and the results do not depend on the number of threads used or on whether parallel execution is compiled in (up to floating-point summation order being fixed; networks with dropout or noise layers, which draw random numbers inside parallel loops, are excluded). Random shuffling visits data rows uniformly and different seeds give different runs.",
     ["schedules", "histories", "configurations"],
     "every configuration without in-training stochastic layers, every number of threads and every interleaving of the worker threads",
     "one seed and one thread count per test",
     ["xcsf/utils.c", "xcsf/clset.c", "xcsf/pa.c", "xcsf/xcs_supervised.c"],
     [("rand_init_seed", "xcsf/utils.c"), ("parallel loops of clset_match / clset_update / pa_build", "xcsf/clset.c, xcsf/pa.c")],
     ["snapshots of whole runs"])

prop("C14", "Each condition type accepts exactly the inputs its definition says",
     "For every rule and input: an interval condition accepts iff every feature lies within its interval (centre and spread, or unordered bounds), an ellipsoid condition iff the squared scaled distance to its centre is below one, a ternary condition iff every cared-for bit equals the discretised input bit, a dummy condition always, tree and network conditions iff their first output exceeds one half, and a graph condition iff its first node's final state exceeds one half. A condition created by covering accepts the input it was created for.",
     ["inputs", "configurations"],
     "every condition reachable by covering, random initialisation, mutation, crossover or import, and every input including boundary values",
     "tests check a few points",
     ["xcsf/cond_rectangle.c", "xcsf/cond_ellipsoid.c", "xcsf/cond_ternary.c", "xcsf/cond_gp.c", "xcsf/cond_dgp.c", "xcsf/cond_neural.c", "xcsf/cond_dummy.c", "xcsf/rule_dgp.c", "xcsf/rule_neural.c"],
     [("cond_*_match, cond_*_cover", "xcsf/cond_*.c")],
     ["cl_match"])

prop("C15", "A condition judged more general accepts everything the other accepts",
     "Whenever one rule's condition is judged at least as general as another's, every input in the configured range that the second accepts is accepted by the first (for interval, ternary and dummy conditions, exactly; for ellipsoids, under their axis-wise definition: it contains the other's extreme points along every axis). For interval and ternary conditions the converse holds too: a condition that contains the other one is judged general. An interval or ellipsoid rule is at least as general as itself, a ternary rule is judged general only when it has strictly more don't-care symbols, generality is transitive for interval and ternary conditions, and representations without a generality order never claim it.",
     ["inputs", "configurations"],
     "every pair and triple of conditions and every input",
     "tests check one pair per type",
     ["xcsf/cond_rectangle.c", "xcsf/cond_ellipsoid.c", "xcsf/cond_ternary.c", "xcsf/cond_dummy.c", "xcsf/cl.c", "xcsf/act_integer.c"],
     [("cond_*_general", "xcsf/cond_*.c"), ("cl_general, act_integer_general", "xcsf/cl.c, xcsf/act_integer.c")],
     ["cl_general, cl_match"])

prop("C16", "Genetic operators keep rules legal and report changes truthfully",
     "Covered rules have spreads of at least the minimum; mutation of interval, ellipsoid and ternary conditions and integer actions always leaves values inside the configured ranges (bounds and centres within the input range, only legal ternary symbols, actions below the number of actions) and crossover exchanges only values the two parents hold at the same position (graphs and networks have no crossover: it leaves them alone and reports nothing). A mutation reports a change exactly when the rule was changed and a crossover whenever it was; copying produces an equal but independent rule, and with zero rates nothing changes. Learning moves interval and ellipsoid centres towards the input by the configured rate and leaves everything else of such conditions alone.",
     ["inputs", "histories", "configurations"],
     "every sequence of covering, crossover, mutation and copying",
     "tests apply one operator once",
     ["xcsf/cond_rectangle.c", "xcsf/cond_ellipsoid.c", "xcsf/cond_ternary.c", "xcsf/act_integer.c", "xcsf/cl.c", "xcsf/utils.h"],
     [("cond_*_mutate / cond_*_crossover / cond_*_copy", "xcsf/cond_*.c"), ("act_integer_*", "xcsf/act_integer.c")],
     ["JSON export and struct fields of conditions before and after"])

prop("C17", "Evolved trees and graphs stay well formed and compute what they encode",
     "Every genetic-programming tree reachable by random creation, crossover and mutation is a complete prefix program whose symbols are legal (within the configured length when created; crossover exchanges one subtree of each parent), and evaluates to the value of its arithmetic expression (addition, subtraction, multiplication and protected division over clamped operands). Every dynamical graph has exactly its declared nodes with legal functions, in-range connections and a legal number of update cycles, and its states after an update are those of the synchronous fuzzy-logic network, reset to the initial state when not stateful. Copies, saved-and-loaded and exported versions are identical and independent, and operators report a change exactly when the structure changed.",
     ["inputs", "histories", "configurations"],
     "every tree and graph reachable through genetic operators, every input",
     "tests evaluate one hand-made tree and graph",
     ["xcsf/gp.c", "xcsf/dgp.c", "xcsf/cond_gp.c", "xcsf/cond_dgp.c"],
     [("tree_eval, tree_crossover, tree_mutate, tree_grow", "xcsf/gp.c"), ("graph_update, graph_mutate, graph_rand", "xcsf/dgp.c")],
     ["tree and graph structures, evaluation results"])

prop("C18", "Linear and constant predictors follow their learning rules exactly",
     "For every input stream, a constant prediction tracks the running mean and then the exponentially weighted mean of the targets; normalised-least-mean-squares and recursive-least-squares predictions equal the weighted sum of the (linear, or linear plus all pairwise products) input features with offset, and their weights follow the published update equations with the configured rate, scale and forgetting factors. Computing a prediction does not change the predictor, and outputs are learned independently of each other.",
     ["inputs", "histories", "configurations"],
     "every input and target stream, dimension and parameter setting",
     "tests replay one fixed stream",
     ["xcsf/pred_constant.c", "xcsf/pred_nlms.c", "xcsf/pred_rls.c", "xcsf/prediction.c", "xcsf/blas.c"],
     [("pred_*_compute, pred_*_update", "xcsf/pred_*.c"), ("pred_transform_input", "xcsf/prediction.c")],
     ["Cl.prediction, exported weights"])

prop("C19", "Neural layers compute the functions they are named after",
     "For every network and input, each layer's output equals an independent reference evaluation from its exported parameters: connected, recurrent and LSTM layers, convolution with any kernel, stride and padding, max and average pooling, upsampling, softmax, dropout and noise layers (identity or scaled outside training), and every activation function. Outputs are finite for bounded parameters, softmax outputs are a probability distribution, and recurrent and LSTM layers carry their state from one input to the next.",
     ["inputs", "configurations", "histories"],
     "every layer stack, shape, activation function, parameter value and input sequence",
     "tests check one tiny network per layer type",
     ["xcsf/neural.c", "xcsf/neural_layer_*.c", "xcsf/neural_activations.c", "xcsf/blas.c", "xcsf/image.c"],
     [("neural_propagate and each layer's forward", "xcsf/neural*.c")],
     ["layer outputs"])

prop("C20", "Network training follows the true gradient of the squared error",
     "For every differentiable network and training pair, one training step with zero momentum and decay moves each trainable weight and bias by the learning rate times the negative gradient of the squared error, as measured by finite differences through the network's own forward pass (a softmax output layer is trained by cross entropy; the weights of recurrent self connections and of LSTM layers, and what is trained through an LSTM layer, are compared only in the first step after a reset and, for LSTM layers, with linear or rectifying functions: beyond that they are a known finding); momentum and weight decay act as documented, parameters not meant to be trained do not move, and pruned connections stay exactly zero. The error signal passed to earlier layers is the gradient with respect to their output.",
     ["inputs", "configurations", "histories"],
     "every network of connected, recurrent, LSTM, convolutional, pooling, upsampling and softmax layers, every input and target",
     "tests check that the error goes down on one example",
     ["xcsf/neural.c", "xcsf/neural_layer_*.c", "xcsf/neural_activations.c"],
     [("neural_learn and each layer's backward / update", "xcsf/neural*.c")],
     ["parameter differences, layer deltas"])

prop("C21", "Evolving a network keeps it structurally consistent",
     "After any sequence of mutation (weights, rates, connectivity, neurons, functions), training, copying and layer insertion or removal, consecutive layers of a network agree on their sizes, every count equals the number of elements actually present and active, neuron counts stay between one and the configured maximum, rates and weights stay inside their configured ranges, and pruned weights are zero; only aspects that are enabled for a layer change, and each of those does change in time, units and connections that remain after a resize keep their values, and changing connectivity leaves no unit or input of a connected layer without a connection. The output size never changes and evaluation stays memory safe, and a mutation that reports no change leaves the network computing the same function.",
     ["histories", "configurations"],
     "every sequence of structural operators over every layer stack",
     "tests mutate one layer once",
     ["xcsf/neural.c", "xcsf/neural_layer.c", "xcsf/neural_layer_*.c", "xcsf/pred_neural.c", "xcsf/cond_neural.c"],
     [("neural_mutate, neural_resize, neural_insert, neural_remove", "xcsf/neural.c"), ("layer_mutate_*, layer_add_neurons", "xcsf/neural_layer.c")],
     ["layer structures, outputs"])

prop("C22", "Loss functions equal their definitions for every prediction and target",
     "Mean absolute, mean squared, root mean squared, logarithmic, binary logarithmic, one-hot and Huber losses equal their mathematical definitions averaged over the outputs as documented; they are finite and non-negative for all legal inputs, zero for a perfect prediction (up to the logarithm clamp), and invariant under the same permutation of prediction and target where the definition is. The loss selected by name or number is the one applied, and names and numbers convert back and forth.",
     ["inputs", "configurations"],
     "every prediction and target vector, including equal, extreme and boundary values",
     "tests check one vector per loss",
     ["xcsf/loss.c", "xcsf/loss.h"],
     [("loss_*", "xcsf/loss.c")],
     ["loss values"])

prop("C23", "Parameters are validated, and exporting then importing them loses nothing",
     "Every learning parameter accepts its legal range and clamps or refuses anything outside as documented, so no accepted setting leaves an out-of-range value. Exporting the settings as JSON and importing them into another system - including nested condition, action, prediction, network, tree, graph and evolution settings, as far as they apply under the chosen types - yields equal settings and an identical export, applied independently of key order, and unknown names or ill-typed values are refused rather than ignored.",
     ["inputs", "configurations"],
     "every combination of settings and every malformed variant",
     "tests set a few values",
     ["xcsf/param.c", "xcsf/condition.c", "xcsf/prediction.c", "xcsf/action.c", "xcsf/ea.c", "xcsf/neural_layer_args.c", "xcsf/gp.c", "xcsf/dgp.c"],
     [("param_json_export / param_json_import and setters", "xcsf/param.c")],
     ["struct XCSF parameters, JSON text"])

prop("C24", "Reinforcement learning credits the right actions with the right payoff",
     "In any sequence of decisions and rewards, the rules advocating the action taken in the previous step are updated towards the previous reward plus the discount factor times the current best prediction, and at the end of a trial the rules advocating the final action towards the final reward; rules not advocating the taken action are not updated. Single-step learning updates exactly the rules advocating the given action towards the reward and reports the configured loss of the prediction for that action. Evolution takes place, and the clock advances, only on exploring steps; exploiting steps take the best action, ties broken at random; and the exploration choice respects the configured probability. An experiment alternates max_trials exploring and exploiting trials, each from a reset of the problem until it is solved or teletransportation steps have passed, and returns the mean performance (steps, or the fraction rewarded) of the exploiting ones.",
     ["histories", "inputs", "configurations"],
     "every sequence of states, actions, rewards and episode ends",
     "tests play one fixed episode",
     ["xcsf/xcs_rl.c", "xcsf/clset.c", "xcsf/pa.c"],
     [("xcs_rl_update, xcs_rl_decision, xcs_rl_fit, xcs_rl_error, clset_action", "xcsf/xcs_rl.c, xcsf/clset.c")],
     ["rule statistics and constant predictions around each step"])

prop("C25", "Built-in problems and file readers deliver the data they define",
     "The multiplexer presents inputs of its declared size in [0,1], read as bits by a threshold of one half, and rewards one exactly when the chosen action equals the addressed bit; mazes move the animat per their eight-neighbour wrapping rules, never into obstacles, sense the surrounding cells by their codes, and pay the goal reward and end the trial exactly on a goal cell; data read from comma-separated files equals the numbers in the file, row by row, whatever their count or line length. Files whose shapes disagree are refused. Configuration files set exactly the parameters they name. Running an experiment alternates exploring and exploiting trials of at most the configured number of steps and reports the mean performance of the exploiting ones.",
     ["inputs", "histories"],
     "every action sequence, maze map, data file and configuration file",
     "tests load the shipped files",
     ["xcsf/env_mux.c", "xcsf/env_maze.c", "xcsf/env_csv.c", "xcsf/env.c", "xcsf/config.c"],
     [("env_mux_*, env_maze_*, env_csv_*", "xcsf/env_*.c"), ("config_read", "xcsf/config.c")],
     ["environment state, returned rewards, parsed arrays"])

prop("C26", "Python arrays are interpreted by value, whatever their memory layout",
     "Fitting, predicting, scoring and deciding from Python depend only on the values and shape of the arrays given - not on their memory order, strides, contiguity, numeric type, read-only flag or later lifetime - and never modify them. Arrays whose shape does not fit the model, or mismatched numbers of rows, raise an error instead of being read. Results are arrays of the documented shape that stay valid afterwards.",
     ["inputs", "histories", "configurations"],
     "every array layout, dtype and shape, and every call sequence",
     "tests use freshly made contiguous arrays",
     ["xcsf/pybind_wrapper.cpp", "xcsf/pybind_utils.h"],
     [("load_input, fit, predict, score, decision, update", "xcsf/pybind_wrapper.cpp")],
     ["Python call results"])

prop("C27", "Supervised fitting runs the requested trials and reports them truthfully",
     "Fitting runs exactly the configured maximum number of trials, presenting each training row once per pass in order when shuffling is off and only rows of the data when on, and records one metrics entry per performance period with the number of trials run by all fits so far, mean training error over the period, validation score when validation data are given (zero otherwise), and the population's true size and set statistics; a verbose fit prints these same numbers, and a fit with verbose off prints nothing. Warm starts continue the existing population while cold starts begin with a fresh one; early stopping stops after the configured patience without improvement and restores the best population, and checkpoints hold the model as it was when written, at the configured frequency, only on improvement if so configured.",
     ["histories", "configurations", "inputs"],
     "every data set, trial count, performance period, callback set and sequence of fits",
     "tests fit one configuration",
     ["xcsf/pybind_wrapper.cpp", "xcsf/pybind_callback*.h", "xcsf/xcs_supervised.c"],
     [("fit, update_metrics", "xcsf/pybind_wrapper.cpp"), ("xcs_supervised_fit", "xcsf/xcs_supervised.c"), ("EarlyStoppingCallback, CheckpointCallback", "xcsf/pybind_callback_*.h")],
     ["metrics, callbacks, final state"])

prop("C28", "Every legal use is memory safe and releases what it allocates",
     "For every legal configuration and any sequence of public operations - training, prediction, saving, loading, exporting, importing, storing, expanding and freeing - no memory outside live allocations is read or written, no undefined arithmetic occurs, and freeing the system returns all memory it obtained. A long history uses memory bounded by its population, not by the number of operations performed.",
     ["histories", "configurations", "inputs"],
     "every operation history under every representation",
     "tests run without instrumentation on a handful of sequences",
     ["xcsf/*.c", "xcsf/*.h"],
     [("alloc/free pairs in every init/free", "xcsf/*.c")],
     ["AddressSanitizer, UndefinedBehaviorSanitizer, allocation counters"])

prop("C29", "Self-adaptive mutation rates stay legal, are inherited and actually adapt",
     "Each rule's mutation rates stay within their legal bounds for their kind (at least 0.0005, at most one) throughout any history of initialisation and adaptation, log-normal rates change by a log-normal factor, uniform rates are redrawn uniformly with probability 0.1, and rate-selected ones always come from the fixed list of ten. It is these rates that set how often or how far each part of a rule mutates. Offspring inherit their parent's rates before adapting, and rates that are not self-adaptive stay as configured.",
     ["histories", "configurations"],
     "every number of rates, every adaptation kind and any number of adaptation steps",
     "tests adapt once",
     ["xcsf/sam.c", "xcsf/cond_*.c", "xcsf/act_integer.c", "xcsf/gp.c", "xcsf/dgp.c"],
     [("sam_init, sam_adapt", "xcsf/sam.c")],
     ["mutation-rate vectors"])

prop("C30", "Growing networks and reusing autoencoders change only what they say",
     "Expanding prediction networks inserts into every rule's prediction network exactly one new fully connected layer directly before the output layer, as wide as the layer before it and with the configured activation and learning settings, and leaves all other layers' weights as they were. Turning an autoencoder into a classifier removes the given number of layers from the output end (never the last one left), keeps the others, and appends a linear and a softmax layer with the given number of outputs, so that every rule predicts a probability distribution, and sets the one-hot loss. Both start fitness, error, experience and time stamp of every rule afresh and leave conditions, actions, numerosities and the rest of the system alone; rules created or restored later fit the new output; learning, saving and predicting go on. Without networks nothing happens.",
     ["histories", "configurations"],
     "every network architecture, every sequence of expansions, conversions and learning",
     "tests call each once on one small network and check nothing about the result",
     ["xcsf/xcsf.c", "xcsf/pred_neural.c", "xcsf/neural.c"],
     [("xcsf_pred_expand, xcsf_ae_to_classifier", "xcsf/xcsf.c"), ("pred_neural_expand, pred_neural_ae_to_classifier", "xcsf/pred_neural.c"), ("neural_insert, neural_remove", "xcsf/neural.c")],
     ["layers of every prediction network, rule statistics, predictions"])

prop("C31", "What is reported about a population is what is in it",
     "For every population of any representation, the reported mean condition and prediction sizes, mean numbers of layers, and mean neurons, connections and learning rate of each layer equal the means over its rules (zero for layers or networks that do not exist); the average action set size follows the sizes of the action sets with step beta; and the JSON export lists the rules in order with their exact statistics and current match, action and prediction, showing exactly those of condition, action and prediction that were asked for with the exact parameters they hold - bounds, strings, expressions, graphs, layers, weights. Printing shows the same text. Reporting changes nothing.",
     ["histories", "configurations", "inputs"],
     "every population and representation, every choice of parts",
     "tests print a rule or compare one short string",
     ["xcsf/clset.c", "xcsf/clset_neural.c", "xcsf/cl.c", "xcsf/cond_*.c", "xcsf/act_*.c", "xcsf/pred_*.c", "xcsf/neural*.c", "xcsf/gp.c", "xcsf/dgp.c"],
     [("clset_mean_*, clset_json_export, clset_print, clset_action", "xcsf/clset.c, xcsf/clset_neural.c"), ("*_json_export", "xcsf/*.c")],
     ["returned statistics, exported JSON, printed text"])

prop("C32", "Reinforcement learning driven from Python credits exactly what happened",
     "For every sequence of init_trial/init_step/decision/update/error/end_step/end_trial, fit(state, action, reward), predict and pickling in random order, a model whose rules each cover exactly one state and action (or every state and one action) behaves as a table would: each decision is a legal action and, when not exploring, one of the best; the previous step's action set is credited with its reward plus gamma times the best current value and the current one with the reward at the end of a trial; fit credits exactly the given action of the given state; returned errors, the running error and the clock are the computed ones; predict returns the values per action and the cover value for unknown states.",
     ["histories", "configurations"],
     "every interleaving of steps, fits, predictions and restarts",
     "tests run one maze or check that functions do not raise",
     ["xcsf/pybind_wrapper.cpp", "xcsf/xcs_rl.c", "xcsf/pa.c", "xcsf/clset.c"],
     [("XCS::fit, decision, update, error, init_trial ... end_step", "xcsf/pybind_wrapper.cpp"), ("xcs_rl_*", "xcsf/xcs_rl.c")],
     ["decisions, errors, predictions and rule contents seen from Python"])

prop("C33", "From Python a model has exactly the parameters it was given",
     "For every set of constructor arguments, in every order, each given value is the one internal_params() and get_params() tell, everything not named has its default, which works for every dimension of input, output and action set, and models made from the same arguments in another order, or from what get_params() or internal_params() tell, have equal parameters and, with equal random_state, learn identically. set_params() changes exactly what it names, whatever else was set before, and returns the model; pickling keeps every parameter.",
     ["configurations", "histories"],
     "every combination and order of parameters and later changes",
     "tests set a handful of parameters in one order",
     ["xcsf/pybind_wrapper.cpp", "xcsf/param.c", "xcsf/ea.c", "xcsf/condition.c", "xcsf/prediction.c", "xcsf/action.c"],
     [("XCS::XCS, set_params, get_params, internal_params, update_params", "xcsf/pybind_wrapper.cpp"), ("param_json_import, param_json_export", "xcsf/param.c")],
     ["parameters told by the model, what it learns"])

prop("C34", "The command-line program runs the requested experiment and reports it truthfully",
     "For every problem (csv files, multiplexer, maze), configuration file and saved model, xcsf runs max_trials trials with exactly the parameters printed (those of the file, which may hold comments and blank space, or of the model loaded), drawing csv rows uniformly from the whole training and test data, and after every perf_trials trials prints the trial, the mean of the training and test error (or of performance and error) over exactly the trials since the line before - the first line also counts trial 0 - and the number of rules. A multiplexer trial has performance 0 or 1; a maze trial takes between 1 and teletransportation steps and ends at a goal. Runs with equal seeds are equal. Calls, files and configurations that cannot be served end with a message and exit code 1, never a crash.",
     ["inputs", "configurations", "histories"],
     "every configuration, data file, maze and window length",
     "no test runs the program",
     ["xcsf/main.c", "xcsf/perf.c", "xcsf/config.c", "xcsf/env.c", "xcsf/env_csv.c", "xcsf/env_maze.c", "xcsf/env_mux.c", "xcsf/xcs_supervised.c", "xcsf/xcs_rl.c"],
     [("main", "xcsf/main.c"), ("perf_print", "xcsf/perf.c"), ("xcs_supervised_fit", "xcsf/xcs_supervised.c"), ("xcs_rl_exp", "xcsf/xcs_rl.c"), ("config_read", "xcsf/config.c")],
     ["standard output and exit code of the program"])

prop("C35", "The exported description of a model explains its predictions",
     "For every model without networks and every learning history, the rules json() exports are all the rules there are, and evaluating them as described - the condition (intervals, ellipsoid, ternary string, expression or graph), the action, and the weights of the prediction, averaged by fitness over the rules that accept an input - yields exactly what predict() returns for every input, the given cover value where no rule accepts it. Leaving out conditions, actions or predictions changes nothing else of the export. After predicting, the export tells for every rule whether it accepted the last input, with which action and prediction, and statistics that predicting has not changed.",
     ["inputs", "histories", "configurations"],
     "every rule that evolves and every input",
     "tests export single rules and compare text",
     ["xcsf/pybind_wrapper.cpp", "xcsf/clset.c", "xcsf/cl.c", "xcsf/condition.c", "xcsf/cond_rectangle.c", "xcsf/cond_ellipsoid.c", "xcsf/cond_ternary.c", "xcsf/gp.c", "xcsf/dgp.c", "xcsf/rule_dgp.c", "xcsf/pred_nlms.c", "xcsf/pred_rls.c", "xcsf/pred_constant.c", "xcsf/pa.c"],
     [("XCS::json_export, predict", "xcsf/pybind_wrapper.cpp"), ("clset_json_export", "xcsf/clset.c"), ("cl_json_export", "xcsf/cl.c"), ("graph_json_export", "xcsf/dgp.c"), ("tree_json_export", "xcsf/gp.c")],
     ["exported JSON, predictions"])

prop("C36", "Drawings show exactly the rule they were made from",
     "For every expression tree and every graph of a rule, TreeViz and DGPViz draw one node per symbol (or per graph node and feature in use), labelled with the function, the value to five decimals or the feature's name where one is given; a tree's functions have their two arguments in order, a graph has exactly the connections of its nodes (only the first for NOT), its match node is shaded, and the caption holds the note and the size and number of cycles. Drawing does not change what was given.",
     ["inputs"],
     "every tree and graph shape and every list of feature names",
     "there are no tests of the drawings",
     ["xcsf/utils/viz.py", "xcsf/gp.c", "xcsf/dgp.c"],
     [("TreeViz", "xcsf/utils/viz.py"), ("DGPViz", "xcsf/utils/viz.py")],
     ["nodes, edges and captions handed to graphviz"])

prop("C37", "Using models from Python accumulates no memory",
     "For every model configuration, a life of a model in Python - created, trained cold or warm, with validation data and callbacks, or by reinforcement learning, asked for predictions, scores, exports and parameters, stored and retrieved, saved and loaded, pickled and unpickled, given rules and parameters, its networks expanded, some calls refused - that ends with the model being discarded returns all the memory it obtained: repeating the same life does not make the process hold more.",
     ["histories", "configurations"],
     "every configuration and sequence of calls, repeated any number of times",
     "no test measures memory; leaks show only over long runs",
     ["xcsf/pybind_wrapper.cpp", "xcsf/pybind_callback_earlystop.h", "xcsf/pybind_callback_checkpoint.h", "xcsf/xcsf.c", "xcsf/param.c", "xcsf/clset.c", "xcsf/cl.c"],
     [("XCS::~XCS, deserialize, json_export", "xcsf/pybind_wrapper.cpp"), ("xcsf_free, xcsf_load", "xcsf/xcsf.c"), ("param_free", "xcsf/param.c"), ("clset_kill", "xcsf/clset.c")],
     ["bytes in use in the process"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
