S.append(dict(id='C10-loaded-params', prop='C10',
    needs='asking a model for its parameters with get_params(), or cloning it, after loading a file of the same population size',
    breaks='get_params() of the loaded model tells its former parameters, not those of the saved one',
    edits=[('xcsf/pybind_wrapper.cpp', '''        size_t s = xcsf_load(&xcs, filename);
        update_params();
''', '''        const int limit = xcs.POP_SIZE;
        size_t s = xcsf_load(&xcs, filename);
        if (xcs.POP_SIZE != limit) {
            update_params();
        }
''')],
    py=r'''
import os, sys, tempfile
import numpy as np
import xcsf
x = xcsf.XCS(x_dim=2, y_dim=1, n_actions=1, max_trials=50, perf_trials=50, pop_size=37, beta=0.25, random_state=1)
x.fit(np.random.rand(10, 2), np.random.rand(10, 1), verbose=False)
y = xcsf.XCS(x_dim=2, pop_size=37)
with tempfile.TemporaryDirectory() as d:
    x.save(os.path.join(d, "m"))
    y.load(os.path.join(d, "m"))
sys.exit(not (y.get_params()["beta"] == 0.25))
'''))
S.append(dict(id='C17-tiny-divisor', prop='C17',
    needs='an expression that divides by a small negative number',
    breaks='the value of the expression is not that of its arithmetic: the division is skipped',
    edits=[('xcsf/gp.c', '            return (b != 0) ? (a / b) : a;', '            return (b > 0 || b < -1e-3) ? (a / b) : a;')],
    c=r'''
int main(void)
{
    struct ArgsGPTree a;
    tree_args_init(&a);
    tree_param_set_n_inputs(&a, 2);
    tree_param_set_n_constants(&a, 1);
    tree_param_set_max_len(&a, 10);
    tree_param_set_init_depth(&a, 2);
    tree_args_init_constants(&a);
    int prog[] = {3, 5, 6};
    struct GPTree t = {.tree = prog, .len = 3, .pos = 0};
    const double x[] = {0.5, -0.0005};
    const double v = tree_eval(&t, &a, x);
    if (fabs(v + 1000) > 1e-6) BAD("0.5 / -0.0005 is %g", v);
    return 0;
}
'''))
S.append(dict(id='C20-oblong-image', prop='C20',
    needs='training a convolutional layer with several filters over an image that is not square',
    breaks='the biases of the filters follow the gradient of the wrong outputs',
    edits=[('xcsf/neural_layer_convolutional.c', 'blas_sum(l->delta + k * i, k);', 'blas_sum(l->delta + l->out_h * l->out_h * i, k);')],
    c=r'''
int main(void)
{
    rand_init_seed(1);
    struct ArgsLayer *a = malloc(sizeof(struct ArgsLayer));
    layer_args_init(a);
    a->type = CONVOLUTIONAL;
    a->function = LINEAR;
    a->height = 2, a->width = 5, a->channels = 1;
    a->n_init = 3, a->n_max = 3;
    a->size = 1, a->stride = 1, a->pad = 0;
    a->n_inputs = 10;
    a->eta = 0.1;
    a->sgd_weights = true;
    struct Net net;
    neural_init(&net);
    net.n_inputs = 10;
    neural_push(&net, layer_init(a));
    double x[10], y[30];
    for (int i = 0; i < 10; ++i) x[i] = 0.1 * i;
    neural_propagate(&net, x, true);
    double want[3];
    struct Layer *l = net.head->layer;
    for (int f = 0; f < 3; ++f) {
        want[f] = l->biases[f];
        for (int i = 0; i < 10; ++i) {
            y[f * 10 + i] = neural_output(&net, f * 10 + i) + (f + 1) * 0.1 + i * 0.01;
            want[f] += 0.1 * ((f + 1) * 0.1 + i * 0.01);
        }
    }
    neural_learn(&net, y, x);
    for (int f = 0; f < 3; ++f)
        if (!(fabs(l->biases[f] - want[f]) < 1e-9)) BAD("bias %d is %g, expected %g", f, l->biases[f], want[f]);
    return 0;
}
'''))
S.append(dict(id='C26-more-targets', prop='C26',
    needs='more rows of targets than of inputs',
    breaks='arrays of different numbers of rows are accepted instead of raising an error',
    edits=[('xcsf/pybind_wrapper.cpp', 'if (buf_x.shape[0] != buf_y.shape[0]) {', 'if (buf_x.shape[0] > buf_y.shape[0]) {')],
    py=r'''
import sys
import numpy as np
import xcsf
x = xcsf.XCS(x_dim=2, y_dim=1, n_actions=1, max_trials=10, random_state=1)
for f in (x.fit, x.score):
    try:
        f(np.zeros((4, 2)), np.zeros((5, 1)))
        sys.exit(1)
    except ValueError:
        pass
'''))
S.append(dict(id='C27-last-epoch', prop='C27',
    needs='a number of trials that is not a multiple of the performance period',
    breaks='the trials after the last complete period are not run',
    edits=[('xcsf/pybind_wrapper.cpp', 'const int n = ceil(xcs.MAX_TRIALS / (double) xcs.PERF_TRIALS);', 'const int n = std::max(1, xcs.MAX_TRIALS / xcs.PERF_TRIALS);')],
    py=r'''
import sys
import numpy as np
import xcsf
x = xcsf.XCS(x_dim=2, y_dim=1, n_actions=1, max_trials=25, perf_trials=10, random_state=1)
x.fit(np.zeros((4, 2)), np.zeros((4, 1)), verbose=False)
sys.exit(not (list(x.get_metrics()["trials"]) == [10, 20, 25] and x.time() == 25))
'''))
S.append(dict(id='C30-kept-experience', prop='C30',
    needs='turning an autoencoder whose rules are experienced and have numerosity above one into a classifier',
    breaks='rules of several copies keep their experience',
    edits=[('xcsf/xcsf.c', '''        pred_neural_ae_to_classifier(xcsf, iter->cl, n_del);
        iter->cl->fit = xcsf->INIT_FITNESS;
        iter->cl->err = xcsf->INIT_ERROR;
        iter->cl->exp = 0;
''', '''        pred_neural_ae_to_classifier(xcsf, iter->cl, n_del);
        iter->cl->fit = xcsf->INIT_FITNESS;
        iter->cl->err = xcsf->INIT_ERROR;
        iter->cl->exp = iter->cl->num > 1 ? iter->cl->exp : 0;
''')],
    c=r'''
int main(void)
{
    struct XCSF x;
    param_init(&x, 3, 3, 1);
    json(&x, "{\"condition\":{\"type\":\"dummy\"},\"pop_size\":10,\"pop_init\":false,\"prediction\":{\"type\":\"neural\",\"args\":{"
             "\"layer_0\":{\"type\":\"connected\",\"activation\":\"relu\",\"n_init\":2},"
             "\"layer_1\":{\"type\":\"connected\",\"activation\":\"linear\",\"n_init\":3}}}}");
    xcsf_init(&x);
    struct Cl *c = new_rule(&x);
    c->exp = 12;
    c->num = 3;
    x.pset.num = 3;
    xcsf_ae_to_classifier(&x, 2, 1);
    if (c->exp != 0) BAD("experience %d", c->exp);
    return 0;
}
'''))
S.append(dict(id='C31-rule-network-neurons', prop='C31',
    needs='rules whose condition and action share a network, and asking for its mean number of neurons',
    breaks='the mean number of neurons of rule networks is reported as zero',
    edits=[('xcsf/clset_neural.c', '''clset_mean_cond_neurons(const struct XCSF *xcsf, const struct Set *set,
                        const int layer)
{
    int sum = 0;
    int cnt = 0;
    if (xcsf->cond->type == COND_TYPE_NEURAL ||
        xcsf->cond->type == RULE_TYPE_NEURAL) {''', '''clset_mean_cond_neurons(const struct XCSF *xcsf, const struct Set *set,
                        const int layer)
{
    int sum = 0;
    int cnt = 0;
    if (xcsf->cond->type == COND_TYPE_NEURAL) {''')],
    c=r'''
int main(void)
{
    struct XCSF x;
    param_init(&x, 3, 1, 2);
    json(&x, "{\"action\":{\"type\":\"integer\"},\"pop_size\":10,\"pop_init\":false,\"prediction\":{\"type\":\"constant\"},"
             "\"condition\":{\"type\":\"rule_neural\",\"args\":{"
             "\"layer_0\":{\"type\":\"connected\",\"activation\":\"relu\",\"n_init\":7},"
             "\"layer_1\":{\"type\":\"connected\",\"activation\":\"linear\",\"n_init\":2}}}}");
    xcsf_init(&x);
    new_rule(&x);
    const double m = clset_mean_cond_neurons(&x, &x.pset, 0);
    if (m != 7) BAD("%g neurons", m);
    return 0;
}
'''))
S.append(dict(id='C34-test-rows', prop='C34',
    needs='fewer test rows than training rows, or more, given as csv files to the program',
    breaks='only as many test rows as there are rows in both files are drawn',
    edits=[('xcsf/xcs_supervised.c', '            row = xcs_supervised_sample(test_data, cnt + start, shuffle);', '''            row = xcs_supervised_sample(
                test_data->n_samples > train_data->n_samples ? train_data :
                                                               test_data,
                cnt + start, shuffle);''')],
    c=r'''
int main(void)
{
    struct XCSF x;
    param_init(&x, 1, 1, 1);
    param_set_random_state(&x, 1);
    json(&x, "{\"condition\":{\"type\":\"dummy\"},\"prediction\":{\"type\":\"constant\"},\"pop_size\":10,\"pop_init\":false,\"loss_func\":\"mae\",\"max_trials\":200,\"perf_trials\":100}");
    xcsf_init(&x);
    double tx[] = {0, 0}, ty[] = {0, 0}, ex[] = {0, 0, 0, 0}, ey[] = {0, 0, 1, 1};
    struct Input train = {tx, ty, 1, 1, 2}, test = {ex, ey, 1, 1, 4};
    fflush(stdout);
    freopen("out.txt", "w", stdout);
    xcs_supervised_fit(&x, &train, &test, true, 0, 200);
    fclose(stdout);
    FILE *f = fopen("out.txt", "r");
    int t, n;
    double a, b;
    if (fscanf(f, "%d %lf %lf %d", &t, &a, &b, &n) != 4) return 2;
    fprintf(stderr, "%d %g %g\n", t, a, b);
    return !(b > 0.2 && b < 0.8);
}
'''))
S.append(dict(id='C35-eleventh-feature', prop='C35',
    needs='tree conditions over more than ten features',
    breaks='the exported expression names another feature than the one the rule looks at',
    edits=[('xcsf/gp.c', 'snprintf(buff, 256, "feature_%d", val);', 'snprintf(buff, 10, "feature_%d", val);')],
    c=r'''
int main(void)
{
    struct ArgsGPTree a;
    tree_args_init(&a);
    tree_param_set_n_inputs(&a, 15);
    tree_param_set_n_constants(&a, 1);
    tree_param_set_max_len(&a, 10);
    tree_param_set_init_depth(&a, 2);
    tree_args_init_constants(&a);
    int prog[] = {4 + 1 + 12};
    double mu[] = {0.5};
    struct GPTree t = {.tree = prog, .len = 1, .pos = 0, .mu = mu};
    const char *s = tree_json_export(&t, &a);
    if (!strstr(s, "\"feature_12\"")) BAD("%s", s);
    return 0;
}
'''))
S.append(dict(id='C36-last-name', prop='C36',
    needs='a tree that uses the last of the named features',
    breaks='the last feature is not labelled with its name',
    edits=[('xcsf/utils/viz.py', '''            if start == "feature" and int(end) < len(self.feature_names):
                return self.feature_names[int(end)]
        elif isinstance(symbol, float):
            return "%.5f" % symbol
        return str(symbol)

    def read_function''', '''            if start == "feature" and int(end) + 1 < len(self.feature_names):
                return self.feature_names[int(end)]
        elif isinstance(symbol, float):
            return "%.5f" % symbol
        return str(symbol)

    def read_function''')],
    py=r'''
import importlib.util, os, sys, types
root = os.environ["PYTHONPATH"].split(":")[0]
root = root[:-len("/_build/repo")]
nodes = []
class Graph:
    def __init__(self, *a, **k): pass
    def node(self, name, label=None, **k): nodes.append(label)
    def edge(self, *a, **k): pass
    def attr(self, *a, **k): pass
    def view(self, *a, **k): pass
g = types.ModuleType("graphviz")
g.Graph = g.Digraph = Graph
sys.modules["graphviz"] = g
spec = importlib.util.spec_from_file_location("viz", root + "/xcsf/utils/viz.py")
viz = importlib.util.module_from_spec(spec)
spec.loader.exec_module(viz)
viz.TreeViz(["(", "feature_0", "+", "feature_1", ")"], "t", feature_names=["low", "high"])
sys.exit(not ("low" in nodes and "high" in nodes))
'''))
MEM = r'''
import ctypes, gc, sys
import numpy as np
class MI(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]
libc = ctypes.CDLL(None)
libc.mallinfo2.restype = MI
def used():
    gc.collect()
    m = libc.mallinfo2()
    return m.uordblks + m.hblkhd
def grows(f, limit):
    for _ in range(300):
        f()
    g = []
    for _ in range(4):
        b = used()
        for _ in range(200):
            f()
        g.append((used() - b) / 200)
    print("bytes per call", g)
    return min(g) > limit
import xcsf
'''
S.append(dict(id='C37-read-parameters', prop='C37',
    needs='reading the parameters of a model again and again',
    breaks='every internal_params() call keeps the text of the parameters for ever',
    edits=[('xcsf/pybind_wrapper.cpp', '''        py::dict internal_params = json_module.attr("loads")(json_str);
        free(json_str);
''', '''        py::dict internal_params = json_module.attr("loads")(json_str);
''')],
    py=MEM + r'''
x = xcsf.XCS(x_dim=2, pop_size=5)
sys.exit(1 if grows(x.internal_params, 100) else 0)
'''))
S.append(dict(id='C37-insert-text', prop='C37',
    needs='inserting a single rule from its description again and again',
    breaks='the parsed description of each inserted rule is never released',
    edits=[('xcsf/pybind_wrapper.cpp', '''        clset_json_insert_cl(&xcs, json);
        cJSON_Delete(json);
''', '''        clset_json_insert_cl(&xcs, json);
''')],
    py=MEM + r'''
import json
x = xcsf.XCS(x_dim=2, pop_size=5, pop_init=True, random_state=1)
doc = json.dumps(json.loads(x.json())["classifiers"][0])
sys.exit(1 if grows(lambda: x.json_insert_cl(doc), 200) else 0)
'''))
