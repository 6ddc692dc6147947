// C30: growing prediction networks and turning autoencoders into classifiers
// changes what it says and nothing else.
#include "ref.hpp"
#include <unistd.h>
using namespace pbt;

struct Before {
    std::vector<const Cl *> order;
    std::vector<Snap> rule; // condition, action and their rates
    std::vector<std::vector<Snap>> layers;
    std::vector<int> num, size, age, mtotal, outs, last;
    int time, total;
    double error;
};
static Before look(const XCSF *x)
{
    Before b;
    b.order = rules(x->pset);
    for (const Cl *k : b.order) {
        b.rule.push_back(snap_cl(x, k, S_COND | S_ACT));
        b.layers.emplace_back();
        for (const Layer *l : net_layers(pred_net(x, k))) b.layers.back().push_back(snap_layer(l, S_MU));
        const auto ls = net_layers(pred_net(x, k));
        b.last.push_back(ls.size() > 1 ? ls[ls.size() - 2]->n_outputs : ls[0]->n_outputs);
        b.num.push_back(k->num), b.size.push_back((int) k->size), b.age.push_back(k->age), b.mtotal.push_back(k->mtotal);
    }
    b.time = x->time;
    b.total = x->pset.num;
    b.error = x->error;
    return b;
}
static void shapes(const XCSF *x, const Net *n, const char *what)
{
    const auto ls = net_layers(n);
    CHECK((int) ls.size() == n->n_layers, "shape", "%s: a network of %zu layers says it has %d", what, ls.size(), n->n_layers);
    CHECK(n->n_inputs == x->x_dim && ls[0]->n_inputs == x->x_dim, "shape", "%s: a prediction network takes %d inputs of %d", what, n->n_inputs, x->x_dim);
    CHECK(n->n_outputs == x->y_dim && ls.back()->n_outputs == x->y_dim, "shape", "%s: a prediction network has %d outputs (its last layer %d) for %d dimensions", what, n->n_outputs,
          ls.back()->n_outputs, x->y_dim);
    CHECK(n->output == ls.back()->output, "shape", "%s: the output of a network is not its last layer's", what);
    for (size_t i = 0; i + 1 < ls.size(); ++i)
        CHECK(ls[i]->n_outputs == ls[i + 1]->n_inputs, "shape", "%s: layer %zu gives %d values, the next takes %d", what, i, ls[i]->n_outputs, ls[i + 1]->n_inputs);
}
// what both operations leave alone, and what they start afresh
static void common(const XCSF *x, const Before &b, const char *what)
{
    CHECK(rules(x->pset) == b.order && x->pset.num == b.total && x->pset.size == (int) b.order.size(), "population", "%s changed the population", what);
    CHECK(x->time == b.time && x->error == b.error, "system", "%s changed the clock or the running error", what);
    for (size_t i = 0; i < b.order.size(); ++i) {
        const Cl *k = b.order[i];
        const std::string d = diff(b.rule[i], snap_cl(x, k, S_COND | S_ACT));
        CHECK(d.empty(), "rule", "%s changed a condition or action: %s", what, d.c_str());
        CHECK(k->num == b.num[i] && (int) k->size == b.size[i] && k->age == b.age[i] && k->mtotal == b.mtotal[i], "rule", "%s changed numerosity, set size, age or matches", what);
        CHECK(k->fit == x->INIT_FITNESS && k->err == x->INIT_ERROR && k->exp == 0 && k->time == x->time, "afresh",
              "after %s a rule has fitness %g error %g experience %d time %d", what, k->fit, k->err, k->exp, k->time);
    }
}
static void forward(XCSF *x, Data &d, bool stochastic, const char *what)
{
    if (stochastic) return;
    param_set_explore(x, false);
    for (const Cl *k : rules(x->pset)) {
        const Net *n = pred_net(x, k);
        RefMem mem;
        for (const Layer *l : net_layers(n)) {
            if (l->type == RECURRENT) mem.out[l] = std::vector<double>(l->output_layer->output, l->output_layer->output + l->n_outputs);
            if (l->type == LSTM) {
                mem.out[l] = std::vector<double>(l->h, l->h + l->n_outputs);
                mem.cell[l] = std::vector<double>(l->c, l->c + l->n_outputs);
            }
        }
        const auto want = ref_net(n, d.xrow(0), &mem).back();
        cl_predict(x, k, d.xrow(0));
        for (int i = 0; i < x->y_dim; ++i)
            CHECK(close(k->prediction[i], want[(size_t) i], 1e-8, 1e-10), "forward", "after %s a rule predicts %.12g, its network says %.12g", what, k->prediction[i], want[(size_t) i]);
    }
    param_set_explore(x, true);
}
static void roundtrip(XCSF *x, const Cfg &g, Src &s)
{
    const std::string f = scratch() + "/m.bin";
    xcsf_save(x, f.c_str());
    Sys y(g.x_dim, g.y_dim, g.n_actions);
    xcsf_load(y, f.c_str());
    unlink(f.c_str());
    const std::string d = diff_sets(snap_set(x, x->pset, S_RULE), snap_set(y, y->pset, S_RULE));
    CHECK(d.empty(), "save", "saved and loaded after the change: %s", d.c_str());
    const std::string e = diff(snap_params(x), snap_params(y));
    CHECK(e.empty(), "save", "saved and loaded after the change: %s", e.c_str());
    (void) s;
}
// without networks there is nothing to change
static void none(Src &s, Case &c)
{
    CfgOpt o;
    o.preds = {PRED_TYPE_CONSTANT, PRED_TYPE_NLMS_LINEAR, PRED_TYPE_NLMS_QUADRATIC, PRED_TYPE_RLS_LINEAR, PRED_TYPE_RLS_QUADRATIC};
    const Cfg g = gen_cfg(s, o);
    c.desc << g.str();
    Sys x(g);
    auto d = gen_data(s, g, 3);
    train(x, *d, s, s.range(1, 8));
    const auto b = snap_set(x, x->pset, S_RULE);
    const Snap par = snap_params(x);
    xcsf_pred_expand(x);
    if (s.flip()) xcsf_ae_to_classifier(x, s.range(1, 5), s.range(0, 3));
    const std::string e = diff_sets(b, snap_set(x, x->pset, S_RULE)) + diff(par, snap_params(x));
    CHECK(e.empty(), "none", "changing networks of rules that have none changed: %s", e.c_str());
    c.count("without networks");
    c.nontrivial = x->pset.size > 0;
}
static void run(Src &s, Case &c)
{
    if (s.chance(1, 20)) return none(s, c);
    CfgOpt o;
    o.preds = {PRED_TYPE_NEURAL};
    o.net_level = s.chance(1, 3) ? 2 : 1;
    o.max_pop = 25;
    Cfg g = gen_cfg(s, o);
    c.desc << g.str();
    Sys x(g);
    auto d = gen_data(s, g, s.range(2, 5));
    const bool none = s.chance(1, 10); // no rules yet
    if (!none) add_rules(x, g, s, s.range(1, 4));
    if (!none && s.chance(2, 3)) train(x, *d, s, s.range(1, 12));
    if (x->pset.size == 0) c.count("no rules yet");
    if (s.chance(1, 3)) x->time += s.range(0, 3000);
    scramble(x, s, 3);
    if (s.chance(1, 4)) xcsf_store_pset(x);
    int ops = s.range(1, 3), grown = 0, removed = 0;
    const bool random = g.stochastic();
    while (ops-- > 0) {
        const Before b = look(x);
        const ArgsLayer *largs = x->pred->largs;
        if (s.flip() || g.n_actions > 1) { // classes are for supervised learning
            if (std::any_of(b.last.begin(), b.last.end(), [](int n) { return n > 200; })) break; // a square of large images: slow
            c.desc << " grow";
            const Snap par = snap_params(x);
            xcsf_pred_expand(x);
            common(x, b, "growing");
            const std::string pd = diff(par, snap_params(x));
            CHECK(pd.empty(), "settings", "growing changed settings: %s", pd.c_str());
            for (size_t i = 0; i < b.order.size(); ++i) {
                const Net *n = pred_net(x, b.order[i]);
                const auto ls = net_layers(n);
                const size_t k = b.layers[i].size();
                CHECK(ls.size() == k + 1, "layers", "growing turned %zu layers into %zu", k, ls.size());
                shapes(x, n, "grown");
                const Layer *l = ls[k - 1];
                CHECK(l->type == CONNECTED && l->n_outputs == b.last[i], "layers", "the new layer is of type %d with %d neurons, expected %d", l->type, l->n_outputs, b.last[i]);
                CHECK(l->function == largs->function && l->eta <= largs->eta && (largs->evolve_eta || l->eta == largs->eta) && l->momentum == largs->momentum && l->decay == largs->decay, "layers",
                      "the new layer has function %d rate %g momentum %g decay %g", l->function, l->eta, l->momentum, l->decay);
                for (size_t j = 0; j < k; ++j) {
                    const Layer *now = ls[j < k - 1 ? j : k];
                    if (j == k - 1 && k == 1) continue; // its input changed
                    const std::string df = diff(b.layers[i][j], snap_layer(now, S_MU));
                    CHECK(df.empty(), "weights", "growing changed layer %zu of %zu: %s", j, k, df.c_str());
                }
            }
            ++grown;
            c.count("networks grown", (int64_t) b.order.size());
        } else {
            const int y = s.range(1, 5), del = s.range(0, 4);
            c.desc << " classify " << y << " without " << del;
            xcsf_ae_to_classifier(x, y, del);
            g.y_dim = y;
            g.loss = LOSS_ONEHOT;
            common(x, b, "reuse as a classifier");
            CHECK(x->y_dim == y && x->pa_size == y * x->n_actions && x->LOSS_FUNC == LOSS_ONEHOT, "settings", "the system has %d outputs, %d predictions and loss %d", x->y_dim, x->pa_size, x->LOSS_FUNC);
            for (size_t i = 0; i < b.order.size(); ++i) {
                const Net *n = pred_net(x, b.order[i]);
                const auto ls = net_layers(n);
                const int kept = std::max(1, (int) b.layers[i].size() - del);
                CHECK((int) ls.size() == kept + 2, "layers", "%zu layers without %d became %zu, expected %d", b.layers[i].size(), del, ls.size(), kept + 2);
                shapes(x, n, "classifying");
                for (int j = 0; j < kept; ++j) {
                    const std::string df = diff(b.layers[i][(size_t) j], snap_layer(ls[(size_t) j], S_MU));
                    CHECK(df.empty(), "weights", "kept layer %d changed: %s", j, df.c_str());
                }
                const Layer *l = ls[(size_t) kept];
                CHECK(l->type == CONNECTED && l->function == LINEAR && ls.back()->type == SOFTMAX && ls.back()->scale == 1, "layers", "the new layers are of type %d (function %d) and %d (temperature %g)", l->type,
                      l->function, ls.back()->type, ls.back()->scale);
                CHECK(l->eta <= largs->eta && (largs->evolve_eta || l->eta == largs->eta) && l->momentum == largs->momentum && l->decay == largs->decay, "layers",
                      "the new layer has rate %g momentum %g decay %g", l->eta, l->momentum, l->decay);
            }
            if (s.chance(1, 3)) { // a rule made from now on
                Cl *k = (Cl *) malloc(sizeof(Cl));
                cl_init(x, k, 1, x->time);
                cl_rand(x, k);
                const auto ls = net_layers(pred_net(x, k));
                CHECK(ls.size() > 2, "later", "a later rule has %zu layers", ls.size());
                shapes(x, pred_net(x, k), "of a later rule");
                const Layer *l = ls[ls.size() - 2];
                CHECK(ls.back()->type == SOFTMAX && ls.back()->scale == 1 && l->type == CONNECTED && l->function == LINEAR && l->n_outputs == y, "later",
                      "a later rule ends in layers of type %d (function %d, %d outputs) and %d (temperature %g)", l->type, l->function, l->n_outputs, ls.back()->type, ls.back()->scale);
                CHECK(l->eta <= largs->eta && (largs->evolve_eta || l->eta == largs->eta) && l->momentum == largs->momentum && l->decay == largs->decay, "later",
                      "a later rule's new layer has rate %g momentum %g decay %g", l->eta, l->momentum, l->decay);
                cl_free(x, k);
                c.count("later rules");
            }
            d = gen_data(s, g, s.range(2, 5));
            for (int r = 0; r < d->in.n_samples; ++r) {
                const int cls = s.range(0, y - 1);
                for (int i = 0; i < y; ++i) d->yrow(r)[i] = i == cls;
            }
            removed += del > 0;
            c.count("networks reused", (int64_t) b.order.size());
        }
        forward(x, *d, random, "the change");
        if (g.loss == LOSS_ONEHOT && g.y_dim == x->y_dim && x->pset.size > 0)
            for (const Cl *k : rules(x->pset)) {
                if (net_layers(pred_net(x, k)).back()->type != SOFTMAX) continue;
                cl_predict(x, k, d->xrow(0));
                double sum = 0;
                for (int i = 0; i < x->y_dim; ++i) {
                    CHECK(k->prediction[i] >= 0 && k->prediction[i] <= 1, "classes", "a class has probability %g", k->prediction[i]);
                    sum += k->prediction[i];
                }
                CHECK(fabs(sum - 1) < 1e-9, "classes", "class probabilities add up to %.12g", sum);
            }
        if (s.flip()) roundtrip(x, g, s);
        // learning goes on, with new rules
        const int before = x->pset.size;
        if (s.chance(3, 4)) {
            std::vector<double> far((size_t) g.x_dim);
            if (s.flip()) add_rules(x, g, s, s.range(1, 3));
            train(x, *d, s, s.range(1, 8));
        }
        c.count("rules added", x->pset.size - before > 0 ? x->pset.size - before : 0);
        check_population(x, false);
        for (const Cl *k : rules(x->pset)) shapes(x, pred_net(x, k), "after learning on");
        std::vector<double> out((size_t) x->pa_size * (size_t) d->in.n_samples), cover((size_t) x->pa_size, 0.5);
        xcs_supervised_predict(x, d->in.x, out.data(), d->in.n_samples, cover.data());
        for (double v : out) CHECK(std::isfinite(v), "finite", "predicts %g", v);
        if (x->pset.size == 0) break;
        if (s.chance(1, 3)) xcsf_retrieve_pset(x);
        for (const Cl *k : rules(x->pset)) shapes(x, pred_net(x, k), "after restoring");
        if (s.chance(1, 4)) xcsf_store_pset(x);
    }
    c.nontrivial = grown + removed > 0;
}
const Property pbt::property = {
    "C30",
    "a case is a random system with neural predictions of any layers, trained or not, whose networks are grown or reused as classifiers up to three times, with learning, storing, saving in between; "
    "non-trivial: a layer was added or removed",
    run, 20000, 500000, 60};
