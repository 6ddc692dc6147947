// C31: what is reported about the population is what is in it.
#include "ref.hpp"
#include <unistd.h>
#include <fcntl.h>
using namespace pbt;

static const char *ACT[] = {"logistic", "relu", "tanh", "linear", "gaussian", "sin", "cos", "softplus", "leaky", "selu", "loggy"};
struct J {
    const cJSON *j;
    std::string at;
    J(const cJSON *j_, const std::string &a) : j(j_), at(a) {}
    J get(const char *k) const
    {
        const cJSON *c = nullptr;
        int n = 0;
        for (const cJSON *i = j->child; i; i = i->next)
            if (i->string && !strcmp(i->string, k)) c = i, ++n;
        CHECK(n == 1, "missing", "%s has %d entries %s", at.c_str(), n, k);
        return J(c, at + "." + k);
    }
    bool has(const char *k) const { return cJSON_GetObjectItemCaseSensitive(j, k) != nullptr; }
    void is(double v) const
    {
        if (!std::isfinite(v)) return; // not representable
        CHECK(cJSON_IsNumber(j) && close(j->valuedouble, v, 1e-14, 0), "value", "%s is shown as %.17g, it is %.17g", at.c_str(), cJSON_IsNumber(j) ? j->valuedouble : NAN, v);
    }
    void is(const std::string &v) const
    {
        CHECK(cJSON_IsString(j) && v == j->valuestring, "value", "%s is shown as %s, it is %s", at.c_str(), cJSON_IsString(j) ? j->valuestring : "?", v.c_str());
    }
    template <class T> void is(const T *v, int n) const
    {
        CHECK(cJSON_IsArray(j) && cJSON_GetArraySize(j) == n, "value", "%s has %d entries instead of %d", at.c_str(), cJSON_IsArray(j) ? cJSON_GetArraySize(j) : -1, n);
        int i = 0;
        for (const cJSON *c = j->child; c; c = c->next, ++i) J(c, at + fmt("[%d]", i)).is((double) v[i]);
    }
};
static int active(const Layer *l)
{
    int n = 0;
    for (auto &p : dense_parts(const_cast<Layer *>(l)))
        for (int i = 0; i < p.second->n_weights; ++i) n += p.second->weight_active[i];
    return n;
}
static void weights(const J &j, const Layer *l, bool full)
{
    j.get("n_weights").is(l->n_weights);
    j.get("n_biases").is(l->n_biases);
    int n = 0;
    for (int i = 0; i < l->n_weights; ++i) n += l->weight_active[i];
    j.get("n_active").is(n);
    CHECK(j.has("weights") == full && j.has("biases") == full, "parts", "%s: weights are %sshown", j.at.c_str(), full ? "not " : "");
    if (full) {
        j.get("weights").is(l->weights, l->n_weights);
        j.get("biases").is(l->biases, l->n_biases);
    }
}
static void net(const J &j, const Net *n, bool full = false)
{
    const auto ls = net_layers(n);
    CHECK(cJSON_GetArraySize(j.j) == (int) ls.size(), "layers", "%s shows %d layers of %zu", j.at.c_str(), cJSON_GetArraySize(j.j), ls.size());
    for (size_t i = 0; i < ls.size(); ++i) {
        const Layer *l = ls[i];
        const J k = j.get(fmt("layer_%zu", i).c_str());
        k.get("type").is(layer_type_as_string(l->type));
        k.get("n_inputs").is(l->n_inputs);
        k.get("n_outputs").is(l->n_outputs);
        const bool dense = !dense_parts(const_cast<Layer *>(l)).empty();
        if (dense) {
            k.get("activation").is(ACT[l->function]);
            k.get("eta").is(l->eta);
            k.get("mutation").is(l->mu, 6);
        }
        switch (l->type) {
            case CONNECTED: weights(k.get("weights"), l, full); break;
            case CONVOLUTIONAL:
                k.get("n_filters").is(l->n_filters), k.get("size").is(l->size), k.get("stride").is(l->stride), k.get("pad").is(l->pad);
                weights(k.get("weights"), l, full);
                break;
            case RECURRENT:
                weights(k.get("input_layer"), l->input_layer, full), weights(k.get("self_layer"), l->self_layer, full), weights(k.get("output_layer"), l->output_layer, full);
                break;
            case LSTM:
                k.get("recurrent_activation").is(ACT[l->recurrent_function]);
                weights(k.get("uf_layer"), l->uf, full), weights(k.get("ui_layer"), l->ui, full), weights(k.get("ug_layer"), l->ug, full), weights(k.get("uo_layer"), l->uo, full);
                weights(k.get("wf_layer"), l->wf, full), weights(k.get("wi_layer"), l->wi, full), weights(k.get("wg_layer"), l->wg, full), weights(k.get("wo_layer"), l->wo, full);
                break;
            case DROPOUT: k.get("probability").is(l->probability); break;
            case NOISE: k.get("probability").is(l->probability), k.get("stdev").is(l->scale); break;
            case SOFTMAX: k.get("temperature").is(l->scale); break;
            case MAXPOOL:
                k.get("size").is(l->size), k.get("stride").is(l->stride), k.get("pad").is(l->pad);
                // fall through
            case AVGPOOL: k.get("height").is(l->height), k.get("width").is(l->width), k.get("channels").is(l->channels); break;
            case UPSAMPLE: k.get("height").is(l->height), k.get("width").is(l->width), k.get("channels").is(l->channels), k.get("stride").is(l->stride); break;
            default: break;
        }
    }
}
static void graph(const J &j, const Graph &g)
{
    static const char *F[] = {"Fuzzy NOT", "Fuzzy AND", "Fuzzy OR"};
    j.get("n").is(g.n), j.get("t").is(g.t), j.get("n_inputs").is(g.n_inputs);
    j.get("initial_state").is(g.initial_state, g.n), j.get("current_state").is(g.state, g.n);
    j.get("connectivity").is(g.connectivity, g.klen);
    j.get("mutation").is(g.mu, 3);
    const J f = j.get("functions");
    CHECK(cJSON_GetArraySize(f.j) == g.n, "value", "%d functions are shown of %d", cJSON_GetArraySize(f.j), g.n);
    int i = 0;
    for (const cJSON *c = f.j->child; c; c = c->next, ++i) J(c, f.at + fmt("[%d]", i)).is(F[g.function[i]]);
}
// infix expression shown against the prefix tree
static int tree(const cJSON *&t, const GPTree &g, const ArgsGPTree *a, int pos, const std::string &at)
{
    CHECK(t && pos < g.len, "tree", "%s ends early", at.c_str());
    const int node = g.tree[pos];
    if (node >= 4) {
        const J j(t, at);
        if (node - 4 < a->n_constants) j.is(a->constants[node - 4]);
        else j.is(fmt("feature_%d", node - 4 - a->n_constants));
        t = t->next;
        return pos + 1;
    }
    J(t, at).is("(");
    t = t->next;
    const int second = tree(t, g, a, pos + 1, at);
    CHECK(t, "tree", "%s ends early", at.c_str());
    J(t, at).is(std::string(1, "+-*/"[node]));
    t = t->next;
    const int end = tree(t, g, a, second, at);
    CHECK(t, "tree", "%s ends early", at.c_str());
    J(t, at).is(")");
    t = t->next;
    return end;
}
static double ref_csize(const XCSF *x, const Cl *c)
{
    switch (x->cond->type) {
        case COND_TYPE_DUMMY: return 0;
        case COND_TYPE_TERNARY: return ((CondTernary *) c->cond)->length;
        case COND_TYPE_GP: return ((CondGP *) c->cond)->gp.len;
        case COND_TYPE_DGP: return ((CondDGP *) c->cond)->dgp.n;
        case RULE_TYPE_DGP: return ((RuleDGP *) c->cond)->dgp.n;
        case COND_TYPE_NEURAL:
        case RULE_TYPE_NEURAL: {
            int n = 0;
            for (const Layer *l : net_layers(cond_net(x, c))) n += active(l);
            return n;
        }
        default: return x->x_dim;
    }
}
static int ref_terms(const XCSF *x)
{
    const int n = x->x_dim;
    const bool quad = x->pred->type == PRED_TYPE_NLMS_QUADRATIC || x->pred->type == PRED_TYPE_RLS_QUADRATIC;
    return quad ? 1 + 2 * n + n * (n - 1) / 2 : 1 + n;
}
static double ref_psize(const XCSF *x, const Cl *c)
{
    if (x->pred->type == PRED_TYPE_CONSTANT) return x->y_dim;
    if (x->pred->type != PRED_TYPE_NEURAL) return ref_terms(x) * x->y_dim;
    int n = 0;
    for (const Layer *l : net_layers(pred_net(x, c))) n += active(l);
    return n;
}
static void rule(const J &j, const XCSF *x, const Cl *c, bool wc, bool wa, bool wp)
{
    j.get("error").is(c->err), j.get("fitness").is(c->fit), j.get("set_size").is(c->size);
    j.get("accuracy").is(c->err <= x->E0 ? 1 : std::max(x->ALPHA * pow(c->err / x->E0, -x->NU), DBL_EPSILON));
    j.get("numerosity").is(c->num), j.get("experience").is(c->exp), j.get("time").is(c->time);
    j.get("samples_seen").is(c->age), j.get("samples_matched").is(c->mtotal);
    CHECK(cJSON_IsBool(j.get("current_match").j) && cJSON_IsTrue(j.get("current_match").j) == c->m, "value", "current match is shown wrongly");
    j.get("current_action").is(c->action);
    j.get("current_prediction").is(c->prediction, x->y_dim);
    CHECK(j.has("condition") == wc && j.has("action") == (wa && x->n_actions > 1) && j.has("prediction") == wp, "parts", "asked for %d%d%d, shown %d%d%d", wc, wa, wp, j.has("condition"),
          j.has("action"), j.has("prediction"));
    if (wc) {
        const J k = j.get("condition");
        switch (x->cond->type) {
            case COND_TYPE_DUMMY: k.get("type").is("dummy"); break;
            case COND_TYPE_HYPERRECTANGLE_CSR:
            case COND_TYPE_HYPERRECTANGLE_UBR: {
                const auto *e = (CondRectangle *) c->cond;
                const bool csr = x->cond->type == COND_TYPE_HYPERRECTANGLE_CSR;
                k.get("type").is(csr ? "hyperrectangle_csr" : "hyperrectangle_ubr");
                k.get(csr ? "center" : "bound1").is(e->b1, x->x_dim), k.get(csr ? "spread" : "bound2").is(e->b2, x->x_dim), k.get("mutation").is(e->mu, 1);
                break;
            }
            case COND_TYPE_HYPERELLIPSOID: {
                const auto *e = (CondEllipsoid *) c->cond;
                k.get("type").is("hyperellipsoid");
                k.get("center").is(e->center, x->x_dim), k.get("spread").is(e->spread, x->x_dim), k.get("mutation").is(e->mu, 1);
                break;
            }
            case COND_TYPE_TERNARY: {
                const auto *e = (CondTernary *) c->cond;
                k.get("type").is("ternary");
                k.get("string").is(std::string(e->string, (size_t) e->length)), k.get("mutation").is(e->mu, 1);
                break;
            }
            case COND_TYPE_GP: {
                const GPTree &e = ((CondGP *) c->cond)->gp;
                k.get("type").is("tree_gp");
                k.get("tree").get("mutation").is(e.mu, 1);
                const cJSON *t = k.get("tree").get("array").j->child;
                const int end = tree(t, e, x->cond->targs, 0, k.at);
                CHECK(t == nullptr && end == e.len, "tree", "more or less than the tree is shown");
                break;
            }
            case COND_TYPE_DGP: k.get("type").is("dgp"), graph(k.get("graph"), ((CondDGP *) c->cond)->dgp); break;
            case RULE_TYPE_DGP: k.get("type").is("rule_dgp"), graph(k.get("graph"), ((RuleDGP *) c->cond)->dgp); break;
            default: k.get("type").is(x->cond->type == RULE_TYPE_NEURAL ? "rule_neural" : "neural"), net(k.get("network"), cond_net(x, c));
        }
    }
    if (wa && x->n_actions > 1) {
        const J k = j.get("action");
        if (x->cond->type == RULE_TYPE_DGP) k.get("type").is("rule_dgp");
        else if (x->cond->type == RULE_TYPE_NEURAL) k.get("type").is("rule_neural");
        else if (x->act->type == ACT_TYPE_INTEGER) {
            const auto *a = (ActInteger *) c->act;
            k.get("type").is("integer"), k.get("action").is(a->action), k.get("mutation").is(a->mu, 1);
        } else k.get("type").is("neural"), net(k.get("network"), act_net(x, c));
    }
    if (wp) {
        const J k = j.get("prediction");
        switch (x->pred->type) {
            case PRED_TYPE_CONSTANT: k.get("type").is("constant"), k.get("prediction").is(c->prediction, x->y_dim); break;
            case PRED_TYPE_NLMS_LINEAR:
            case PRED_TYPE_NLMS_QUADRATIC: {
                const auto *p = (PredNLMS *) c->pred;
                k.get("type").is(x->pred->type == PRED_TYPE_NLMS_LINEAR ? "nlms_linear" : "nlms_quadratic");
                k.get("weights").is(p->weights, ref_terms(x) * x->y_dim), k.get("eta").is(p->eta), k.get("mutation").is(p->mu, 1);
                break;
            }
            case PRED_TYPE_RLS_LINEAR:
            case PRED_TYPE_RLS_QUADRATIC: {
                const auto *p = (PredRLS *) c->pred;
                k.get("type").is(x->pred->type == PRED_TYPE_RLS_LINEAR ? "rls_linear" : "rls_quadratic");
                k.get("weights").is(p->weights, ref_terms(x) * x->y_dim);
                break;
            }
            default: k.get("type").is("neural"), net(k.get("network"), pred_net(x, c));
        }
    }
}
static std::string printed(const std::function<void()> &f)
{
    const std::string path = scratch() + "/out";
    fflush(stdout);
    const int keep = dup(1), fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    dup2(fd, 1);
    f();
    fflush(stdout);
    dup2(keep, 1);
    ::close(fd), ::close(keep);
    const std::string t = slurp(path);
    unlink(path.c_str());
    return t;
}
static void means(const XCSF *x, const Set &set, const char *what)
{
    const auto v = rules(set);
    if (v.empty()) return;
    auto mean = [&](const std::function<double(const Cl *)> &f) {
        long double n = 0;
        for (const Cl *c : v) n += f(c);
        return (double) (n / v.size());
    };
    auto eq = [&](double got, double want, const std::string &of) { CHECK(close(got, want, 1e-9, 1e-12), "mean", "mean %s of the %s is given as %.12g, it is %.12g", of.c_str(), what, got, want); };
    eq(clset_mean_cond_size(x, &set), mean([&](const Cl *c) { return ref_csize(x, c); }), "condition size");
    eq(clset_mean_pred_size(x, &set), mean([&](const Cl *c) { return ref_psize(x, c); }), "prediction size");
    double num = 0, time = 0, fit = 0;
    for (const Cl *c : v) num += c->num, time += (double) c->time * c->num, fit += c->fit;
    eq(clset_mean_time(&set), time / num, "time stamp");
    eq(clset_total_fit(&set), fit, "(total) fitness");
    const bool cn = cond_net(x, v[0]) != nullptr, pn = pred_net(x, v[0]) != nullptr;
    auto layer = [](const Net *n, int k) {
        const auto ls = net_layers(n);
        return k >= 0 && k < (int) ls.size() ? ls[(size_t) k] : nullptr;
    };
    auto neurons = [](const Layer *l) { return !l ? 0 : l->type == CONVOLUTIONAL ? l->n_filters : l->n_outputs; };
    auto links = [](const Layer *l) { return l ? active(l) : 0; };
    eq(clset_mean_cond_layers(x, &set), cn ? mean([&](const Cl *c) { return (double) net_layers(cond_net(x, c)).size(); }) : 0, "condition layers");
    eq(clset_mean_pred_layers(x, &set), pn ? mean([&](const Cl *c) { return (double) net_layers(pred_net(x, c)).size(); }) : 0, "prediction layers");
    for (int k = 0; k < 5; ++k) {
        eq(clset_mean_cond_neurons(x, &set, k), cn ? mean([&](const Cl *c) { return neurons(layer(cond_net(x, c), k)); }) : 0, fmt("neurons in condition layer %d", k));
        eq(clset_mean_cond_connections(x, &set, k), cn ? mean([&](const Cl *c) { return links(layer(cond_net(x, c), k)); }) : 0, fmt("connections in condition layer %d", k));
        eq(clset_mean_pred_neurons(x, &set, k), pn ? mean([&](const Cl *c) { return neurons(layer(pred_net(x, c), k)); }) : 0, fmt("neurons in prediction layer %d", k));
        eq(clset_mean_pred_connections(x, &set, k), pn ? mean([&](const Cl *c) { return links(layer(pred_net(x, c), k)); }) : 0, fmt("connections in prediction layer %d", k));
        eq(clset_mean_pred_eta(x, &set, k), pn ? mean([&](const Cl *c) {
               const Layer *l = layer(pred_net(x, c), k);
               return l && links(l) + 1 ? (dense_parts(const_cast<Layer *>(l)).empty() ? 0.0 : l->eta) : 0.0;
           }) : 0, fmt("learning rate of prediction layer %d", k));
    }
}
static void run(Src &s, Case &c)
{
    CfgOpt o;
    o.softmax_pred = true;
    o.net_level = s.chance(1, 3) ? 2 : 1;
    o.max_pop = 25;
    const Cfg g = gen_cfg(s, o);
    c.desc << g.str();
    Sys x(g);
    auto d = gen_data(s, g, s.range(2, 5));
    if (s.flip()) add_rules(x, g, s, s.range(1, 5));
    if (s.chance(3, 4)) train(x, *d, s, s.range(1, 15));
    if (s.chance(1, 60)) { // a large population
        x->POP_SIZE += 200;
        for (int n = s.range(60, 150); n > 0; --n) add_rules(x, g, s, 1);
        c.count("large populations");
    }
    if (s.flip()) scramble(x, s, 4);
    if (g.pred == PRED_TYPE_NEURAL && s.chance(1, 5)) {
        bool large = false; // a new layer is the square of the one before it
        for (const Cl *k : rules(x->pset))
            for (const Layer *l : net_layers(pred_net(x, k))) large = large || l->n_outputs > 200;
        if (!large) xcsf_pred_expand(x);
    }
    for (const Cl *k : rules(x->pset))
        if (s.chance(1, 4)) cl_mutate(x, k);
    means(x, x->pset, "population");
    // a part of the population
    std::vector<const Cl *> part;
    for (const Cl *k : rules(x->pset))
        if (s.flip()) part.push_back(k);
    Set set = make_set(part);
    means(x, set, "set");
    const bool wc = s.chance(3, 4), wa = s.chance(3, 4), wp = s.chance(3, 4), all = s.flip();
    const Set &shown = all ? x->pset : set;
    const Snap par = snap_params(x);
    const auto before = snap_set(x, x->pset, S_RULE | S_PREDVAL | S_MATCH);
    char *str = clset_json_export(x, &shown, wc, wa, wp);
    const std::string text = str;
    free(str);
    cJSON *j = cJSON_Parse(text.c_str());
    CHECK(j, "parse", "the export is not JSON");
    {
        const J list = J(j, "export").get("classifiers");
        const auto v = rules(shown);
        CHECK(cJSON_GetArraySize(list.j) == (int) v.size(), "count", "%d rules are shown of %zu", cJSON_GetArraySize(list.j), v.size());
        size_t i = 0;
        for (const cJSON *k = list.j->child; k; k = k->next, ++i) rule(J(k, fmt("rule %zu", i)), x, v[i], wc, wa, wp);
    }
    cJSON_Delete(j);
    if (s.chance(1, 4)) {
        const std::string t = printed([&] { all ? xcsf_print_pset(x, wc, wa, wp) : clset_print(x, &set, wc, wa, wp); });
        CHECK(t == text + "\n", "print", "printing shows something else than exporting: %s", t.substr(0, 200).c_str());
        if (!part.empty()) {
            char *one = cl_json_export(x, part[0], wc, wa, wp);
            const std::string p = printed([&] { cl_print(x, part[0], wc, wa, wp); });
            CHECK(p == one + std::string("\n"), "print", "printing a rule shows something else than exporting it");
            free(one);
        }
        c.count("printed");
    }
    // networks with their weights
    for (const Cl *k : part) {
        const Net *n = pred_net(x, k) ? pred_net(x, k) : cond_net(x, k);
        if (!n) break;
        char *w = neural_json_export(n, true);
        cJSON *q = cJSON_Parse(w);
        CHECK(q, "parse", "the network is not JSON");
        net(J(q, "network"), n, true);
        cJSON_Delete(q);
        free(w);
        c.count("networks with weights");
        if (s.flip()) break;
    }
    const std::string e = diff(par, snap_params(x)) + diff_sets(before, snap_set(x, x->pset, S_RULE | S_PREDVAL | S_MATCH));
    CHECK(e.empty(), "changed", "reporting changed: %s", e.c_str());
    clset_free(&set);
    // running average of the action set size
    if (g.n_actions > 1) {
        xcs_rl_init_trial(x);
        for (int t = s.range(1, 4); t > 0; --t) {
            xcs_rl_init_step(x);
            xcs_rl_decision(x, d->xrow(0));
            const int a = s.range(0, g.n_actions - 1);
            int n = 0;
            for (const Cl *k : rules(x->mset)) n += k->action == a;
            const double was = x->aset_size;
            clset_action(x, a);
            CHECK(x->aset.size == n && close(x->aset_size, was + x->BETA * (n - was)), "aset-average", "average action set size went from %.12g to %.12g with %d rules", was, x->aset_size, n);
            clset_free(&x->mset);
            clset_free(&x->aset);
            clset_init(&x->mset);
            clset_init(&x->aset);
        }
        xcs_rl_end_trial(x);
        c.count("action sets");
    }
    c.count("rules shown", all ? x->pset.size : (int64_t) part.size());
    c.nontrivial = x->pset.size > 1;
}
const Property pbt::property = {
    "C31",
    "a case is a random population of any representation after a random history, with random statistics; everything reported about it (means, JSON of the whole or a part, printed text, running averages) is recomputed from its rules; "
    "non-trivial: at least two rules",
    run, 16000, 500000, 60};
