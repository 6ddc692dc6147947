// C11: rules exported as JSON tell the truth, can be inserted back and then
// behave identically; documents that do not fit are refused.
#include "ref.hpp"
#include <unistd.h>
using namespace pbt;

static const int GP_NUM_FUNC = 4; // + - * /
static std::string take(char *p)
{
    std::string r = p ? p : "";
    free(p);
    return r;
}
struct Doc {
    cJSON *j;
    explicit Doc(const std::string &t) : j(cJSON_Parse(t.c_str())) {}
    explicit Doc(cJSON *d) : j(d) {}
    ~Doc() { cJSON_Delete(j); }
    Doc(const Doc &) = delete;
    std::string text() const { return take(cJSON_Print(j)); }
};
static bool near(double a, double b) { return (std::isnan(a) && std::isnan(b)) || fabs(a - b) <= 1e-14 * (1 + fabs(a)); }
static const cJSON *key(const cJSON *o, const char *k)
{
    const cJSON *r = cJSON_GetObjectItemCaseSensitive(o, k);
    CHECK(r, "export-missing", "the document lacks \"%s\"", k);
    return r;
}
static void num(const cJSON *o, const char *k, double want)
{
    const cJSON *r = key(o, k);
    CHECK(cJSON_IsNumber(r), "export-type", "\"%s\" is not a number", k);
    CHECK(near(want, r->valuedouble), "export-value", "\"%s\" is %.17g in the document, %.17g in the rule", k, r->valuedouble, want);
}
static void str(const cJSON *o, const char *k, const std::string &want)
{
    const cJSON *r = key(o, k);
    CHECK(cJSON_IsString(r) && want == r->valuestring, "export-value", "\"%s\" is %s in the document, %s in the rule", k, cJSON_IsString(r) ? r->valuestring : "?", want.c_str());
}
template <class T> static void vec(const cJSON *o, const char *k, const T *v, int n)
{
    const cJSON *r = key(o, k);
    CHECK(cJSON_IsArray(r), "export-type", "\"%s\" is not an array", k);
    CHECK(cJSON_GetArraySize(r) == n, "export-length", "\"%s\" has %d values, the rule %d", k, cJSON_GetArraySize(r), n);
    int i = 0;
    for (const cJSON *e = r->child; e; e = e->next, ++i)
        CHECK(cJSON_IsNumber(e) && near((double) v[i], e->valuedouble), "export-value", "\"%s\"[%d] is %.17g in the document, %.17g in the rule", k, i, e->valuedouble, (double) v[i]);
}
static void check_graph(const cJSON *o, const Graph &g)
{
    o = key(o, "graph");
    num(o, "n", g.n);
    num(o, "t", g.t);
    num(o, "n_inputs", g.n_inputs);
    vec(o, "initial_state", g.initial_state, g.n);
    vec(o, "current_state", g.state, g.n);
    vec(o, "connectivity", g.connectivity, g.klen);
    vec(o, "mutation", g.mu, 3);
    const cJSON *f = key(o, "functions");
    CHECK(cJSON_GetArraySize(f) == g.n, "export-length", "%d functions for %d nodes", cJSON_GetArraySize(f), g.n);
}
// "(" a op b ")" back to prefix form, compared with the tree
static const cJSON *check_tree(const cJSON *e, const GPTree &t, const ArgsGPTree *a, int &pos)
{
    CHECK(e, "export-tree", "the exported tree ends early");
    CHECK(pos < t.len, "export-tree", "the exported tree is longer than the rule's");
    const int node = t.tree[pos++];
    if (node < GP_NUM_FUNC) {
        static const char *ops[] = {"+", "-", "*", "/"};
        CHECK(cJSON_IsString(e) && !strcmp(e->valuestring, "("), "export-tree", "node %d is a function but not shown as one", pos - 1);
        e = check_tree(e->next, t, a, pos);
        CHECK(e && cJSON_IsString(e) && !strcmp(e->valuestring, ops[node]), "export-tree", "function %d is shown as %s", node, e && cJSON_IsString(e) ? e->valuestring : "?");
        e = check_tree(e->next, t, a, pos);
        CHECK(e && cJSON_IsString(e) && !strcmp(e->valuestring, ")"), "export-tree", "missing )");
    } else if (node < GP_NUM_FUNC + a->n_constants) {
        CHECK(cJSON_IsNumber(e) && near(a->constants[node - GP_NUM_FUNC], e->valuedouble), "export-tree", "constant %d is shown as %.17g", node - GP_NUM_FUNC, e->valuedouble);
    } else {
        const std::string n = fmt("feature_%d", node - GP_NUM_FUNC - a->n_constants);
        CHECK(cJSON_IsString(e) && n == e->valuestring, "export-tree", "%s is shown as %s", n.c_str(), cJSON_IsString(e) ? e->valuestring : "a number");
    }
    return e->next;
}
static void check_weights(const cJSON *o, const Layer *l, bool values)
{
    num(o, "n_weights", l->n_weights);
    num(o, "n_biases", l->n_biases);
    num(o, "n_active", l->n_active);
    if (values) {
        vec(o, "weights", l->weights, l->n_weights);
        vec(o, "biases", l->biases, l->n_biases);
    }
}
static void check_net(const cJSON *o, const Net *n, bool values)
{
    const auto ls = net_layers(n);
    CHECK(cJSON_GetArraySize(o) == (int) ls.size(), "export-net", "%d layers shown, the network has %zu", cJSON_GetArraySize(o), ls.size());
    for (size_t i = 0; i < ls.size(); ++i) {
        const Layer *l = ls[i];
        const cJSON *d = key(o, fmt("layer_%zu", i).c_str());
        str(d, "type", layer_type_as_string(l->type));
        num(d, "n_inputs", l->n_inputs);
        num(d, "n_outputs", l->n_outputs);
        switch (l->type) {
            case CONNECTED:
            case CONVOLUTIONAL:
                vec(d, "mutation", l->mu, 6);
                num(d, "eta", l->eta);
                str(d, "activation", neural_activation_string(l->function));
                check_weights(key(d, "weights"), l, values);
                break;
            case RECURRENT:
                num(d, "eta", l->eta);
                check_weights(key(d, "input_layer"), l->input_layer, values);
                check_weights(key(d, "self_layer"), l->self_layer, values);
                check_weights(key(d, "output_layer"), l->output_layer, values);
                break;
            case LSTM:
                num(d, "eta", l->eta);
                check_weights(key(d, "uf_layer"), l->uf, values);
                check_weights(key(d, "ui_layer"), l->ui, values);
                check_weights(key(d, "ug_layer"), l->ug, values);
                check_weights(key(d, "uo_layer"), l->uo, values);
                check_weights(key(d, "wf_layer"), l->wf, values);
                check_weights(key(d, "wi_layer"), l->wi, values);
                check_weights(key(d, "wg_layer"), l->wg, values);
                check_weights(key(d, "wo_layer"), l->wo, values);
                break;
            case DROPOUT: num(d, "probability", l->probability); break;
            case NOISE:
                num(d, "probability", l->probability);
                num(d, "stdev", l->scale);
                break;
            case SOFTMAX: num(d, "temperature", l->scale); break;
            default: break;
        }
    }
}
static void check_rule(const XCSF *x, const Cl *c, const cJSON *o, bool cond, bool act, bool pred)
{
    num(o, "error", c->err);
    num(o, "fitness", c->fit);
    num(o, "accuracy", cl_acc(x, c));
    num(o, "set_size", c->size);
    num(o, "numerosity", c->num);
    num(o, "experience", c->exp);
    num(o, "time", c->time);
    num(o, "samples_seen", c->age);
    num(o, "samples_matched", c->mtotal);
    num(o, "current_action", c->action);
    const cJSON *m = key(o, "current_match");
    CHECK(cJSON_IsBool(m) && (bool) cJSON_IsTrue(m) == c->m, "export-value", "current_match is wrong");
    vec(o, "current_prediction", c->prediction, x->y_dim);
    act = act && x->n_actions > 1;
    for (auto &p : {std::make_pair("condition", cond), std::make_pair("action", act), std::make_pair("prediction", pred)})
        CHECK((cJSON_GetObjectItemCaseSensitive(o, p.first) != nullptr) == p.second, "export-parts", "%s is %s", p.first, p.second ? "missing though requested" : "present though not requested");
    if (cond) {
        const cJSON *d = key(o, "condition");
        str(d, "type", condition_type_as_string(x->cond->type));
        switch (x->cond->type) {
            case COND_TYPE_HYPERRECTANGLE_CSR:
            case COND_TYPE_HYPERRECTANGLE_UBR: {
                const CondRectangle *r = (CondRectangle *) c->cond;
                const bool csr = x->cond->type == COND_TYPE_HYPERRECTANGLE_CSR;
                vec(d, csr ? "center" : "bound1", r->b1, x->x_dim);
                vec(d, csr ? "spread" : "bound2", r->b2, x->x_dim);
                vec(d, "mutation", r->mu, 1);
                break;
            }
            case COND_TYPE_HYPERELLIPSOID: {
                const CondEllipsoid *r = (CondEllipsoid *) c->cond;
                vec(d, "center", r->center, x->x_dim);
                vec(d, "spread", r->spread, x->x_dim);
                vec(d, "mutation", r->mu, 1);
                break;
            }
            case COND_TYPE_TERNARY: {
                const CondTernary *r = (CondTernary *) c->cond;
                str(d, "string", std::string(r->string, (size_t) r->length));
                vec(d, "mutation", r->mu, 1);
                break;
            }
            case COND_TYPE_DGP: check_graph(d, ((CondDGP *) c->cond)->dgp); break;
            case RULE_TYPE_DGP: check_graph(d, ((RuleDGP *) c->cond)->dgp); break;
            case COND_TYPE_GP: {
                const GPTree &t = ((CondGP *) c->cond)->gp;
                const cJSON *a = key(key(d, "tree"), "array");
                int pos = 0;
                const cJSON *rest = check_tree(a->child, t, x->cond->targs, pos);
                CHECK(!rest && pos == t.len, "export-tree", "only %d of %d nodes shown", pos, t.len);
                vec(key(d, "tree"), "mutation", t.mu, 1);
                break;
            }
            case COND_TYPE_NEURAL:
            case RULE_TYPE_NEURAL: check_net(key(d, "network"), cond_net(x, c), false); break;
            default: break;
        }
    }
    if (act && !(x->cond->type == RULE_TYPE_DGP || x->cond->type == RULE_TYPE_NEURAL)) {
        const cJSON *d = key(o, "action");
        str(d, "type", action_type_as_string(x->act->type));
        if (x->act->type == ACT_TYPE_INTEGER) {
            num(d, "action", ((ActInteger *) c->act)->action);
            vec(d, "mutation", ((ActInteger *) c->act)->mu, 1);
        } else check_net(key(d, "network"), act_net(x, c), false);
    }
    if (pred) {
        const cJSON *d = key(o, "prediction");
        str(d, "type", prediction_type_as_string(x->pred->type));
        switch (x->pred->type) {
            case PRED_TYPE_CONSTANT: vec(d, "prediction", c->prediction, x->y_dim); break;
            case PRED_TYPE_NLMS_LINEAR:
            case PRED_TYPE_NLMS_QUADRATIC: {
                const PredNLMS *p = (PredNLMS *) c->pred;
                vec(d, "weights", p->weights, p->n_weights);
                num(d, "eta", p->eta);
                vec(d, "mutation", p->mu, 1);
                break;
            }
            case PRED_TYPE_RLS_LINEAR:
            case PRED_TYPE_RLS_QUADRATIC: {
                const PredRLS *p = (PredRLS *) c->pred;
                vec(d, "weights", p->weights, p->n_weights);
                break;
            }
            default: check_net(key(d, "network"), pred_net(x, c), false);
        }
    }
}
static bool finite_rules(const XCSF *x)
{
    for (const Cl *c : rules(x->pset))
        for (const Field &f : snap_cl(x, c, S_RULE | S_PREDVAL))
            if (!std::isfinite(f.v)) return false;
    return true;
}
// snapshot without what the document does not hold
static Snap told(const XCSF *x, const Cl *c, bool cond, bool act, bool pred)
{
    int what = S_STATS | S_MATCH | S_MU | S_PREDVAL;
    if (cond) what |= S_COND;
    if (act && x->n_actions > 1) what |= S_ACT;
    if (pred) what |= S_PRED;
    Snap r;
    for (const Field &f : snap_cl(x, c, what))
        if (strcmp(f.name, "rls.matrix")) r.push_back(f);
    r.push_back({"current match", 0, (double) c->m});
    r.push_back({"current action", 0, (double) c->action});
    return r;
}
static std::string compare(const XCSF *a, const std::vector<const Cl *> &ra, const XCSF *b, const std::vector<const Cl *> &rb, bool cond, bool act, bool pred)
{
    if (ra.size() != rb.size()) return fmt("%zu rules exported, %zu inserted", ra.size(), rb.size());
    for (size_t i = 0; i < ra.size(); ++i) {
        const std::string e = diff(told(a, ra[i], cond, act, pred), told(b, rb[i], cond, act, pred), 1e-14);
        if (!e.empty()) return fmt("rule %zu: %s", i, e.c_str());
    }
    return "";
}
static CfgOpt importable()
{
    CfgOpt o;
    o.conds = {COND_TYPE_DUMMY, COND_TYPE_HYPERRECTANGLE_CSR, COND_TYPE_HYPERRECTANGLE_UBR, COND_TYPE_HYPERELLIPSOID, COND_TYPE_DGP, COND_TYPE_TERNARY, RULE_TYPE_DGP};
    o.preds = {PRED_TYPE_CONSTANT, PRED_TYPE_NLMS_LINEAR, PRED_TYPE_NLMS_QUADRATIC, PRED_TYPE_RLS_LINEAR, PRED_TYPE_RLS_QUADRATIC};
    o.act_neural = false;
    return o;
}
static void populate(XCSF *x, const Cfg &g, Src &s)
{
    auto d = gen_data(s, g, s.range(2, 6));
    train(x, *d, s, s.range(0, 25));
    if (s.flip()) add_rules(x, g, s, s.range(1, 5));
    if (s.chance(1, 3)) scramble(x, s, 4);
}
static std::string exported(const XCSF *x, bool cond, bool act, bool pred)
{
    const Snap p0 = snap_params(x);
    const auto s0 = snap_set(x, x->pset, S_RULE | S_MATCH | S_PREDVAL | S_TRANS);
    const std::string t = take(clset_json_export(x, &x->pset, cond, act, pred));
    CHECK(diff(p0, snap_params(x)).empty() && diff_sets(s0, snap_set(x, x->pset, S_RULE | S_MATCH | S_PREDVAL | S_TRANS)).empty(), "export-changed", "exporting changed the system");
    return t;
}
static void check_document(const XCSF *x, const std::string &t, bool cond, bool act, bool pred)
{
    Doc d(t);
    CHECK(d.j, "export-invalid", "the document is not JSON: %.200s", t.c_str());
    const cJSON *list = key(d.j, "classifiers");
    const auto r = rules(x->pset);
    CHECK(cJSON_IsArray(list) && cJSON_GetArraySize(list) == (int) r.size(), "export-count", "%d rules listed, the population has %zu", cJSON_GetArraySize(list), r.size());
    int i = 0;
    for (const cJSON *e = list->child; e; e = e->next) check_rule(x, r[(size_t) i++], e, cond, act, pred);
}
// every representation: the document tells the truth
static void truth(Src &s, Case &c)
{
    CfgOpt o;
    o.net_level = s.chance(1, 3) ? 2 : 1;
    const Cfg g = gen_cfg(s, o);
    c.desc << "truth: " << g.str();
    Sys x(g);
    populate(x, g, s);
    if (!finite_rules(x)) throw Discard();
    const bool cond = s.chance(3, 4), act = s.chance(3, 4), pred = s.chance(3, 4);
    check_document(x, exported(x, cond, act, pred), cond, act, pred);
    if (x->pset.list) {
        const auto r = rules(x->pset);
        const Cl *k = r[s.below(r.size())];
        Doc one(take(cl_json_export(x, k, cond, act, pred)));
        CHECK(one.j, "export-invalid", "a rule's document is not JSON");
        check_rule(x, k, one.j, cond, act, pred);
        for (const Net *n : {cond_net(x, k), pred_net(x, k)})
            if (n) {
                Doc w(take(neural_json_export(n, true)));
                CHECK(w.j, "export-invalid", "a network's document is not JSON");
                check_net(w.j, n, true);
            }
    }
    c.nontrivial = x->pset.size > 1;
    c.count("documents of any representation");
}
static void round_trip(Src &s, Case &c)
{
    const Cfg g = gen_cfg(s, importable());
    c.desc << "round trip: " << g.str();
    Sys a(g);
    populate(a, g, s);
    if (!finite_rules(a)) throw Discard();
    const bool all = s.chance(3, 4);
    const bool cond = all || s.flip(), act = all || s.flip(), pred = all || s.flip();
    const std::string t = exported(a, cond, act, pred);
    check_document(a, t, cond, act, pred);
    Cfg g2 = g;
    g2.seed = g.seed + 1;
    g2.pop_init = false;
    g2.pop_size = std::max(g.pop_size, a->pset.num + 10);
    const int how = s.pickw({4, 2, 2});
    std::unique_ptr<Sys> b;
    if (how == 2) { // the population file read when a system starts
        const std::string f = scratch() + "/pop.json";
        FILE *fp = fopen(f.c_str(), "w");
        fwrite(t.data(), 1, t.size(), fp);
        fclose(fp);
        b.reset(new Sys(g2));
        param_set_population_file(*b, f.c_str());
        xcsf_free(*b);
        xcsf_init(*b);
        unlink(f.c_str());
        c.count("population file");
    } else {
        b.reset(new Sys(g2));
        if (how == 0) {
            clset_json_insert(*b, t.c_str());
            c.count("documents inserted");
        } else {
            Doc d(t);
            std::vector<const cJSON *> v;
            for (const cJSON *e = key(d.j, "classifiers")->child; e; e = e->next) v.insert(v.begin(), e);
            for (const cJSON *e : v) clset_json_insert_cl(*b, e);
            c.count("rules inserted one by one");
        }
    }
    XCSF *B = *b;
    B->time = a->time;
    check_population(B, false);
    CHECK(B->pset.num == a->pset.num && B->pset.size == a->pset.size, "counts", "%d/%d rules/copies exported, %d/%d inserted", a->pset.size, a->pset.num, B->pset.size, B->pset.num);
    const auto ra = rules(a->pset), rb = rules(B->pset);
    std::string e = compare(a, ra, B, rb, cond, act, pred);
    CHECK(e.empty(), "inserted", "after inserting the export: %s", e.c_str());
    const bool full = cond && pred && (act || g.n_actions == 1 || g.rule_type());
    if (full) {
        for (int k = s.range(1, 4); k > 0; --k) {
            const auto x = gen_x(s, g);
            for (size_t i = 0; i < ra.size(); ++i) {
                double margin = 1;
                ref_match(a, ra[i], x.data(), &margin);
                Cl *p = const_cast<Cl *>(ra[i]), *q = const_cast<Cl *>(rb[i]);
                const bool ma = cl_match(a, p, x.data()), mb = cl_match(B, q, x.data());
                if (margin > 1e-9) {
                    CHECK(ma == mb, "behaviour", "rule %zu %s the input before and %s after", i, ma ? "matched" : "did not match", mb ? "matches" : "does not");
                    if (!g.rule_type()) CHECK(cl_action(a, p, x.data()) == cl_action(B, q, x.data()), "behaviour", "rule %zu advocates another action", i);
                }
                const double *ya = cl_predict(a, p, x.data()), *yb = cl_predict(B, q, x.data());
                for (int j = 0; j < g.y_dim; ++j)
                    CHECK(close(ya[j], yb[j], 1e-9), "behaviour", "rule %zu predicts %.17g, was %.17g", i, yb[j], ya[j]);
            }
        }
        c.count("behaviour compared", (int) ra.size());
    }
    // onto an existing population, within its limit
    if (s.flip() && B->pset.num > 0) {
        B->POP_SIZE = s.range(std::max(1, B->pset.num - 2), 2 * B->pset.num + 2);
        const int before = B->pset.num;
        clset_json_insert(B, t.c_str());
        check_population(B, false);
        const int want = std::min(B->POP_SIZE, before + a->pset.num);
        CHECK(B->pset.num == want, "limit", "%d copies and %d inserted with limit %d gave %d", before, a->pset.num, B->POP_SIZE, B->pset.num);
        c.count("inserted into a population");
    }
    c.nontrivial = !ra.empty();
}
// one thing wrong
static void malformed(Src &s, Case &c)
{
    Cfg g = gen_cfg(s, importable());
    g.pop_size = std::max(g.pop_size, 40);
    c.desc << "malformed: " << g.str();
    Sys a(g);
    add_rules(a, g, s, s.range(1, 3));
    if (!finite_rules(a)) throw Discard();
    Doc d(exported(a, true, true, true));
    cJSON *list = cJSON_GetObjectItem(d.j, "classifiers");
    cJSON *r = cJSON_GetArrayItem(list, s.range(0, cJSON_GetArraySize(list) - 1));
    cJSON *cond = cJSON_GetObjectItem(r, "condition"), *act = cJSON_GetObjectItem(r, "action"), *pred = cJSON_GetObjectItem(r, "prediction");
    cJSON *graph = cJSON_GetObjectItem(cond, "graph");
    struct Try {
        std::string what;
        std::function<void()> f;
    };
    std::vector<Try> tries;
    auto resize = [&](cJSON *o, const char *k) {
        cJSON *v = o ? cJSON_GetObjectItem(o, k) : nullptr;
        if (!v) return;
        tries.push_back({std::string(k) + " too long", [=] { cJSON_AddItemToArray(v, cJSON_CreateNumber(0.5)); }});
        tries.push_back({std::string(k) + " too short", [=] { cJSON_DeleteItemFromArray(v, cJSON_GetArraySize(v) - 1); }});
    };
    auto element = [&](cJSON *o, const char *k, double bad) {
        cJSON *v = o ? cJSON_GetObjectItem(o, k) : nullptr;
        if (!v || cJSON_GetArraySize(v) == 0) return;
        const int i = s.range(0, cJSON_GetArraySize(v) - 1);
        tries.push_back({fmt("%s[%d] = %g", k, i, bad), [=] { cJSON_ReplaceItemInArray(v, i, cJSON_CreateNumber(bad)); }});
    };
    auto replace = [&](cJSON *o, const char *k, double bad) {
        if (!o || !cJSON_GetObjectItem(o, k)) return;
        tries.push_back({fmt("%s = %g", k, bad), [=] { cJSON_ReplaceItemInObject(o, k, cJSON_CreateNumber(bad)); }});
    };
    resize(r, "current_prediction");
    for (const char *k : {"center", "spread", "bound1", "bound2", "mutation"}) resize(cond, k);
    resize(act, "mutation");
    for (const char *k : {"weights", "prediction", "mutation"}) resize(pred, k);
    for (cJSON *o : {cond, act, pred, graph}) {
        element(o, "mutation", 1 + s.unit() + 1e-9);
        element(o, "mutation", -s.unit() - 1e-9);
    }
    if (graph) {
        const Graph &gr = g.cond == COND_TYPE_DGP ? ((CondDGP *) a->pset.list->cl->cond)->dgp : ((RuleDGP *) a->pset.list->cl->cond)->dgp;
        for (const char *k : {"initial_state", "current_state", "functions", "connectivity", "mutation"}) resize(graph, k);
        for (const char *k : {"initial_state", "current_state"}) {
            element(graph, k, 1 + s.unit() + 1e-9);
            element(graph, k, -s.unit() - 1e-9);
        }
        element(graph, "connectivity", -1 - s.range(0, 3));
        element(graph, "connectivity", gr.n + gr.n_inputs + s.range(0, 3));
        replace(graph, "t", -s.range(0, 3));
        replace(graph, "t", gr.max_t + s.range(1, 5));
        replace(graph, "n", gr.n + s.range(1, 4));
        if (gr.n > 1) replace(graph, "n", gr.n - 1);
        replace(graph, "n", 0);
        tries.push_back({"no graph", [=] { cJSON_DeleteItemFromObject(cond, "graph"); }});
        cJSON *f = cJSON_GetObjectItem(graph, "functions");
        tries.push_back({"unknown function", [=] { cJSON_ReplaceItemInArray(f, 0, cJSON_CreateString("Fuzzy XOR")); }});
    }
    if (cJSON *st = cJSON_GetObjectItem(cond, "string")) {
        const std::string w = st->valuestring;
        tries.push_back({"ternary string too short", [=] { cJSON_ReplaceItemInObject(cond, "string", cJSON_CreateString(w.substr(1).c_str())); }});
        tries.push_back({"ternary string too long", [=] { cJSON_ReplaceItemInObject(cond, "string", cJSON_CreateString((w + "#").c_str())); }});
        std::string v = w;
        v[s.below(v.size())] = s.pick(std::vector<char>{'2', ' ', 'x', '*'});
        tries.push_back({"ternary string " + v, [=] { cJSON_ReplaceItemInObject(cond, "string", cJSON_CreateString(v.c_str())); }});
    }
    replace(r, "numerosity", -s.range(0, 4));
    if (act && !g.rule_type()) {
        replace(act, "action", g.n_actions + s.range(0, 3));
        replace(act, "action", -1 - s.range(0, 3));
    }
    for (cJSON *o : {cond, act, pred}) {
        if (!o || (o == act && g.rule_type())) continue;
        const char *names[] = {"dummy", "hyperrectangle_csr", "hyperrectangle_ubr", "hyperellipsoid", "ternary", "dgp", "rule_dgp", "constant", "nlms_linear", "nlms_quadratic", "rls_linear", "rls_quadratic", "neural", "integer", "nonsense"};
        const std::string n = names[s.below(15)], own = cJSON_GetObjectItem(o, "type")->valuestring;
        if (n != own) tries.push_back({own + " as " + n, [=] { cJSON_ReplaceItemInObject(o, "type", cJSON_CreateString(n.c_str())); }});
        tries.push_back({own + " without a type", [=] { cJSON_DeleteItemFromObject(o, "type"); }});
    }
    const Try &t = tries[s.below(tries.size())];
    t.f();
    c.desc << " // " << t.what;
    const std::string text = d.text();
    Cfg g2 = g;
    g2.pop_size = 1000;
    Sys b(g2);
    const bool whole = s.flip();
    const bool out = lib_exits([&] {
        if (whole) clset_json_insert(b, text.c_str());
        else clset_json_insert_cl(b, r);
    });
    CHECK(out, "accepted", "a rule document with %s was accepted", t.what.c_str());
    c.nontrivial = true;
    c.count("malformed documents refused");
}
// parts left out: the rest is taken, what is missing is a legal default
static void partial(Src &s, Case &c)
{
    Cfg g = gen_cfg(s, importable());
    c.desc << "partial: " << g.str();
    Sys a(g);
    add_rules(a, g, s, 1);
    scramble(a, s, 5);
    if (!finite_rules(a)) throw Discard();
    const Cl *k = a->pset.list->cl;
    Doc d(take(cl_json_export(a, k, true, true, true)));
    std::set<std::string> gone;
    std::function<void(cJSON *, int)> prune = [&](cJSON *o, int depth) {
        std::vector<std::string> names;
        for (cJSON *e = o->child; e; e = e->next) names.push_back(e->string);
        for (auto &n : names) {
            if (n == "type" || n == "graph") {
                if (n == "graph") prune(cJSON_GetObjectItem(o, "graph"), depth + 1);
                continue;
            }
            if (s.chance(1, 3)) {
                cJSON_DeleteItemFromObject(o, n.c_str());
                gone.insert(n);
            } else if (cJSON_IsObject(cJSON_GetObjectItem(o, n.c_str()))) prune(cJSON_GetObjectItem(o, n.c_str()), depth + 1);
        }
    };
    prune(d.j, 0);
    c.desc << " // without";
    for (auto &n : gone) c.desc << " " << n;
    Cfg g2 = g;
    g2.seed = g.seed + 7;
    g2.pop_init = false;
    Sys b(g2);
    if (s.flip()) { // others are there already
        add_rules(b, g2, s, s.range(1, 4));
        scramble(b, s, 5);
        b->time = s.range(0, 500);
    }
    const int size0 = b->pset.size, num0 = b->pset.num;
    param_set_pop_size(b, std::max(g2.pop_size, num0 + k->num));
    clset_json_insert_cl(b, d.j);
    CHECK(b->pset.size == size0 + 1, "partial-count", "%d rules after inserting one into %d", b->pset.size, size0);
    CHECK(b->pset.num == num0 + b->pset.list->cl->num, "partial-count", "%d copies counted, there were %d and the rule has %d", b->pset.num, num0, b->pset.list->cl->num);
    Cl *q = b->pset.list->cl;
    auto has = [&](const char *n) { return cJSON_GetObjectItem(d.j, n) != nullptr; };
    CHECK(close(q->err, has("error") ? k->err : b->INIT_ERROR, 1e-14), "partial", "error %g", q->err);
    CHECK(close(q->fit, has("fitness") ? k->fit : b->INIT_FITNESS, 1e-14), "partial", "fitness %g", q->fit);
    CHECK(q->num == (has("numerosity") ? k->num : 1), "partial", "numerosity %d", q->num);
    CHECK(q->exp == (has("experience") ? k->exp : 0), "partial", "experience %d", q->exp);
    CHECK(q->time == (has("time") ? k->time : b->time), "partial", "time %d", q->time);
    CHECK(close(q->size, has("set_size") ? k->size : num0, 1e-14), "partial", "set size %g, there were %d copies of rules", q->size, num0);
    CHECK(q->age == (has("samples_seen") ? k->age : 0), "partial", "samples seen %d", q->age);
    CHECK(q->mtotal == (has("samples_matched") ? k->mtotal : 0), "partial", "samples matched %d", q->mtotal);
    for (const Field &f : snap_cl(b, q, S_COND | S_ACT | S_PRED | S_MU)) {
        CHECK(std::isfinite(f.v), "partial-value", "%s is %g", f.name, f.v);
        if (strstr(f.name, "mu")) CHECK(f.v >= 0 && f.v <= 1, "partial-value", "mutation rate %s is %g", f.name, f.v);
    }
    if (g.cond == COND_TYPE_DGP || g.cond == RULE_TYPE_DGP) {
        const Graph &gr = g.cond == COND_TYPE_DGP ? ((CondDGP *) q->cond)->dgp : ((RuleDGP *) q->cond)->dgp;
        CHECK(gr.t >= 1 && gr.t <= gr.max_t, "partial-value", "graph updates %d times, limit %d", gr.t, gr.max_t);
        for (int i = 0; i < 3; ++i) CHECK(gr.mu[i] >= 0 && gr.mu[i] <= 1, "partial-value", "graph mutation rate %g", gr.mu[i]);
    }
    const auto x = gen_x(s, g);
    cl_match(b, q, x.data());
    const int act = cl_action(b, q, x.data());
    CHECK(act >= 0 && act < g.n_actions, "partial-value", "the inserted rule advocates action %d of %d", act, g.n_actions);
    cl_predict(b, q, x.data());
    c.nontrivial = !gone.empty();
    c.count("partial documents inserted");
}
// the population limit holds whatever is inserted
static void limited(Src &s, Case &c)
{
    const Cfg g = gen_cfg(s, importable());
    Sys a(g);
    add_rules(a, g, s, s.range(1, 4));
    scramble(a, s, 5);
    if (!finite_rules(a)) throw Discard();
    Cfg g2 = g;
    g2.seed = g.seed + 3;
    g2.pop_init = false;
    Sys b(g2);
    if (s.flip()) {
        add_rules(b, g2, s, s.range(1, 4));
        scramble(b, s, 5);
    }
    const int num0 = b->pset.num, limit = num0 + s.range(num0 ? 0 : 1, a->pset.num);
    param_set_pop_size(b, limit);
    c.desc << "limited: " << g.str() << " // " << a->pset.size << " rules with " << a->pset.num << " copies inserted among " << b->pset.size << " with " << num0 << ", limit " << limit;
    const bool whole = s.flip();
    if (whole) clset_json_insert(b, exported(a, true, true, true).c_str());
    else {
        for (const Cl *k : rules(a->pset)) {
            const int before = b->pset.num;
            Doc d(take(cl_json_export(a, k, true, true, true)));
            clset_json_insert_cl(b, d.j);
            CHECK(b->pset.num == std::min(limit, before + k->num), "limit", "%d copies after inserting %d among %d with a limit of %d", b->pset.num, k->num, before, limit);
        }
    }
    check_population(b, false);
    CHECK(b->pset.num == std::min(limit, num0 + a->pset.num), "limit", "%d copies after inserting %d among %d with a limit of %d", b->pset.num, a->pset.num, num0, limit);
    c.nontrivial = limit < num0 + a->pset.num;
    c.count("insertions at the population limit");
}
static void run(Src &s, Case &c)
{
    switch (s.pickw({4, 3, 3, 2, 1})) {
        case 0: return round_trip(s, c);
        case 1: return truth(s, c);
        case 2: return malformed(s, c);
        case 3: return partial(s, c);
        default: return limited(s, c);
    }
}
const pbt::Property pbt::property = {
    "C11",
    "a population with at least one rule was inserted back and compared; or a population of two or more rules was checked value by value against its "
    "document; or one defect was planted in a document; or some keys were left out of one; or more was inserted than the population limit allows",
    run, 12000, 400000, 20};
