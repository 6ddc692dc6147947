// C23: parameters are validated; exporting then importing them loses nothing.
#include "common.hpp"
#include <climits>
using namespace pbt;

// ---- setters
struct ISet {
    const char *name;
    const char *(*set)(XCSF *, int);
    int XCSF::*field;
    int lo, hi;
};
static const std::vector<ISet> isets = {
    {"omp_num_threads", [](XCSF *x, int a) { return param_set_omp_num_threads(x, a); }, &XCSF::OMP_NUM_THREADS, 1, 1000},
    {"max_trials", [](XCSF *x, int a) { return param_set_max_trials(x, a); }, &XCSF::MAX_TRIALS, 1, INT_MAX},
    {"perf_trials", [](XCSF *x, int a) { return param_set_perf_trials(x, a); }, &XCSF::PERF_TRIALS, 1, INT_MAX},
    {"pop_size", [](XCSF *x, int a) { return param_set_pop_size(x, a); }, &XCSF::POP_SIZE, 1, INT_MAX},
    {"teletransportation", [](XCSF *x, int a) { return param_set_teletransportation(x, a); }, &XCSF::TELETRANSPORTATION, 1, INT_MAX},
    {"theta_del", [](XCSF *x, int a) { return param_set_theta_del(x, a); }, &XCSF::THETA_DEL, 0, INT_MAX},
    {"theta_sub", [](XCSF *x, int a) { return param_set_theta_sub(x, a); }, &XCSF::THETA_SUB, 0, INT_MAX},
    {"m_probation", [](XCSF *x, int a) { return param_set_m_probation(x, a); }, &XCSF::M_PROBATION, 0, INT_MAX},
    {"x_dim", [](XCSF *x, int a) { return param_set_x_dim(x, a); }, &XCSF::x_dim, 1, INT_MAX},
    {"y_dim", [](XCSF *x, int a) { return param_set_y_dim(x, a); }, &XCSF::y_dim, 1, INT_MAX},
    {"n_actions", [](XCSF *x, int a) { return param_set_n_actions(x, a); }, &XCSF::n_actions, 1, INT_MAX},
};
struct DSet {
    const char *name;
    const char *(*set)(XCSF *, double);
    double XCSF::*field;
    double lo, hi;
};
static const std::vector<DSet> dsets = {
    {"gamma", [](XCSF *x, double a) { return param_set_gamma(x, a); }, &XCSF::GAMMA, 0, 1},
    {"p_explore", [](XCSF *x, double a) { return param_set_p_explore(x, a); }, &XCSF::P_EXPLORE, 0, 1},
    {"alpha", [](XCSF *x, double a) { return param_set_alpha(x, a); }, &XCSF::ALPHA, 0, 1},
    {"beta", [](XCSF *x, double a) { return param_set_beta(x, a); }, &XCSF::BETA, 0, 1},
    {"delta", [](XCSF *x, double a) { return param_set_delta(x, a); }, &XCSF::DELTA, 0, 1},
    {"e0", [](XCSF *x, double a) { return param_set_e0(x, a); }, &XCSF::E0, 0, 1e300},
    {"init_error", [](XCSF *x, double a) { return param_set_init_error(x, a); }, &XCSF::INIT_ERROR, 0, 1e300},
    {"init_fitness", [](XCSF *x, double a) { return param_set_init_fitness(x, a); }, &XCSF::INIT_FITNESS, 0, 1e300},
    {"nu", [](XCSF *x, double a) { return param_set_nu(x, a); }, &XCSF::NU, 0, 1e300},
    {"huber_delta", [](XCSF *x, double a) { return param_set_huber_delta(x, a); }, &XCSF::HUBER_DELTA, 0, 1e300},
};
struct ESet {
    const char *name;
    const char *(*set)(XCSF *, double);
    double ArgsEA::*field;
    double lo, hi;
};
static const std::vector<ESet> esets = {
    {"select_size", [](XCSF *x, double a) { return ea_param_set_select_size(x, a); }, &ArgsEA::select_size, 0, 1},
    {"theta_ea", [](XCSF *x, double a) { return ea_param_set_theta(x, a); }, &ArgsEA::theta, 0, 1e300},
    {"p_crossover", [](XCSF *x, double a) { return ea_param_set_p_crossover(x, a); }, &ArgsEA::p_crossover, 0, 1},
    {"err_reduc", [](XCSF *x, double a) { return ea_param_set_err_reduc(x, a); }, &ArgsEA::err_reduc, 0, 1},
    {"fit_reduc", [](XCSF *x, double a) { return ea_param_set_fit_reduc(x, a); }, &ArgsEA::fit_reduc, 0, 1},
};
static int gen_int(Src &s)
{
    switch (s.below(5)) {
        case 0: return s.range(-3, 3);
        case 1: return s.pick(std::vector<int>{INT_MIN, INT_MAX, -1, 0, 1, 2, 999, 1000, 1001});
        case 2: return s.range(-100000, -1);
        default: return s.range(1, 1500);
    }
}
static double gen_dbl(Src &s)
{
    switch (s.below(6)) {
        case 0: return s.pick(std::vector<double>{0, 1, -0.0, 0.5, -1e-300, 1 + 1e-12, -1, 2});
        case 1: return -s.unit();
        case 2: return 1 + s.unit();
        case 3: return s.uniform(-1, 1) * pow(10, s.range(-20, 20));
        default: return s.unit();
    }
}
// everything but the listed field must stay: compare before / after snapshots
static std::string only(const Snap &a, const Snap &b, const std::string &name)
{
    for (size_t i = 0; i < a.size() && i < b.size(); ++i)
        if (!same(a[i].v, b[i].v) && name != a[i].name) return fmt("%s changed from %g to %g", a[i].name, a[i].v, b[i].v);
    return a.size() == b.size() ? "" : "fields appeared or vanished";
}
// ---- names
struct Names {
    const char *what;
    std::map<std::string, int> ok;
    int (*number)(const char *);
    const char *(*name)(int);
    int invalid; // INT_MIN: unknown names end the program
};
static const std::vector<Names> kinds = {
    {"loss", {{"mae", LOSS_MAE}, {"mse", LOSS_MSE}, {"rmse", LOSS_RMSE}, {"log", LOSS_LOG}, {"binary_log", LOSS_BINARY_LOG}, {"onehot", LOSS_ONEHOT}, {"huber", LOSS_HUBER}},
     [](const char *t) { return loss_type_as_int(t); }, [](int t) { return loss_type_as_string(t); }, LOSS_INVALID},
    {"condition", {{"dummy", COND_TYPE_DUMMY}, {"hyperrectangle_csr", COND_TYPE_HYPERRECTANGLE_CSR}, {"hyperrectangle_ubr", COND_TYPE_HYPERRECTANGLE_UBR}, {"hyperellipsoid", COND_TYPE_HYPERELLIPSOID}, {"neural", COND_TYPE_NEURAL}, {"tree_gp", COND_TYPE_GP}, {"dgp", COND_TYPE_DGP}, {"ternary", COND_TYPE_TERNARY}, {"rule_dgp", RULE_TYPE_DGP}, {"rule_neural", RULE_TYPE_NEURAL}},
     [](const char *t) { return condition_type_as_int(t); }, [](int t) { return condition_type_as_string(t); }, COND_TYPE_INVALID},
    {"prediction", {{"constant", PRED_TYPE_CONSTANT}, {"nlms_linear", PRED_TYPE_NLMS_LINEAR}, {"nlms_quadratic", PRED_TYPE_NLMS_QUADRATIC}, {"rls_linear", PRED_TYPE_RLS_LINEAR}, {"rls_quadratic", PRED_TYPE_RLS_QUADRATIC}, {"neural", PRED_TYPE_NEURAL}},
     [](const char *t) { return prediction_type_as_int(t); }, [](int t) { return prediction_type_as_string(t); }, PRED_TYPE_INVALID},
    {"action", {{"integer", ACT_TYPE_INTEGER}, {"neural", ACT_TYPE_NEURAL}}, [](const char *t) { return action_type_as_int(t); }, [](int t) { return action_type_as_string(t); }, ACT_TYPE_INVALID},
    {"selection", {{"roulette", EA_SELECT_ROULETTE}, {"tournament", EA_SELECT_TOURNAMENT}}, [](const char *t) { return ea_type_as_int(t); }, [](int t) { return ea_type_as_string(t); }, EA_SELECT_INVALID},
    {"activation", {{"logistic", LOGISTIC}, {"relu", RELU}, {"tanh", TANH}, {"linear", LINEAR}, {"gaussian", GAUSSIAN}, {"sin", SIN}, {"cos", COS}, {"softplus", SOFT_PLUS}, {"leaky", LEAKY}, {"selu", SELU}, {"loggy", LOGGY}, {"softmax", SOFT_MAX}},
     [](const char *t) { return neural_activation_as_int(t); }, [](int t) { return neural_activation_string(t); }, INT_MIN},
    {"layer", {{"connected", CONNECTED}, {"dropout", DROPOUT}, {"noise", NOISE}, {"softmax", SOFTMAX}, {"recurrent", RECURRENT}, {"lstm", LSTM}, {"maxpool", MAXPOOL}, {"convolutional", CONVOLUTIONAL}, {"avgpool", AVGPOOL}, {"upsample", UPSAMPLE}},
     [](const char *t) { return layer_type_as_int(t); }, [](int t) { return layer_type_as_string(t); }, INT_MIN},
};
static void names(Src &s, Case &c)
{
    c.desc << "names";
    for (int k = 0; k < 20; ++k) {
        const Names &n = s.pick(kinds), &from = s.chance(1, 6) ? s.pick(kinds) : n;
        auto it = from.ok.begin();
        std::advance(it, (long) s.below(from.ok.size()));
        std::string t = it->first;
        switch (s.below(8)) {
            case 0: break;
            case 1: t = t.substr(0, s.below(t.size())); break;
            case 2: t += s.pick(std::vector<std::string>{"s", "_", " ", "x", "_linear", "_gp", "istic"}); break;
            case 3: t[s.below(t.size())] ^= 32; break;
            case 4: t.erase(s.below(t.size()), 1); break;
            case 5: t.insert(s.below(t.size() + 1), 1, (char) ('a' + s.below(26))); break;
            case 6: t[s.below(t.size())] = (char) ('a' + s.below(26)); break;
            default: {
                auto jt = from.ok.begin();
                std::advance(jt, (long) s.below(from.ok.size()));
                t = s.flip() ? t + "_" + jt->first : t + jt->first;
            }
        }
        if (t == "rule_network") continue; // a name without an implementation
        auto w = n.ok.find(t);
        if (w == n.ok.end()) {
            int r = n.invalid;
            const bool ex = lib_exits([&] { r = n.number(t.c_str()); });
            CHECK(ex == (n.invalid == INT_MIN) && r == n.invalid, "name", "'%s' was taken for a %s (%d)", t.c_str(), n.what, r);
            c.count("unknown names");
        } else {
            int r = INT_MAX;
            const bool ex = lib_exits([&] { r = n.number(t.c_str()); });
            CHECK(!ex && r == w->second, "name", "%s '%s' was %s (%d)", n.what, t.c_str(), ex ? "refused" : "taken for another", r);
            CHECK(t == n.name(r), "name", "%s '%s' is called '%s'", n.what, t.c_str(), n.name(r));
        }
    }
    c.nontrivial = true;
}
static void setters(Src &s, Case &c)
{
    Sys x(2, 1, 2);
    const int n = s.range(5, 40);
    c.desc << n << " settings";
    int refused = 0;
    for (int k = 0; k < n; ++k) {
        const Snap before = snap_params(x);
        const int kind = s.range(0, 5);
        if (kind == 0) {
            const ISet &t = s.pick(isets);
            const int v = gen_int(s), old = x.x.*t.field;
            const bool legal = v >= t.lo && v <= t.hi;
            const char *e = t.set(x, v);
            CHECK((e == nullptr) == legal, "range", "%s = %d was %s", t.name, v, e ? "refused" : "accepted");
            CHECK(x.x.*t.field == (legal ? v : old), "value", "%s = %d left the value %d", t.name, v, x.x.*t.field);
            refused += !legal;
            x.x.*t.field = old;
            CHECK(diff(before, snap_params(x)).empty(), "side-effect", "setting %s: %s", t.name, diff(before, snap_params(x)).c_str());
            if (t.field == &XCSF::OMP_NUM_THREADS) param_set_omp_num_threads(x, 2), x.x.OMP_NUM_THREADS = old;
        } else if (kind == 1 || kind == 2) {
            const bool ea = kind == 2;
            const DSet &t = s.pick(dsets);
            const ESet &u = s.pick(esets);
            const double v = gen_dbl(s), lo = ea ? u.lo : t.lo, hi = ea ? u.hi : t.hi;
            double &f = ea ? x->ea->*u.field : x.x.*t.field;
            const double old = f;
            const bool legal = v >= lo && v <= hi;
            const char *e = ea ? u.set(x, v) : t.set(x, v);
            CHECK((e == nullptr) == legal, "range", "%s = %.17g was %s", ea ? u.name : t.name, v, e ? "refused" : "accepted");
            CHECK(f == (legal ? v : old), "value", "%s = %.17g left the value %.17g", ea ? u.name : t.name, v, f);
            refused += !legal;
            f = old;
            CHECK(diff(before, snap_params(x)).empty(), "side-effect", "setting %s: %s", ea ? u.name : t.name, diff(before, snap_params(x)).c_str());
        } else if (kind == 3) { // clamped settings
            const double v = gen_dbl(s);
            const int iv = gen_int(s);
            auto cl = [&](double lo, double hi) { return v < lo ? lo : v > hi ? hi : v; };
            auto icl = [&](int lo) { return iv < lo ? lo : iv; };
#define CLAMP(call, field, want)                                                                    \
    {                                                                                               \
        const auto old = field;                                                                     \
        call;                                                                                       \
        CHECK(field == (want), "clamp", #field " set to %.17g / %d is %.17g", v, iv, (double) field); \
        refused += field != v && field != iv;                                                       \
        field = old;                                                                                \
        break;                                                                                      \
    }
            switch (s.below(16)) {
                case 0: CLAMP(cond_param_set_eta(x, v), x->cond->eta, cl(0, 1))
                case 1: CLAMP(cond_param_set_p_dontcare(x, v), x->cond->p_dontcare, cl(0, 1))
                case 2: CLAMP(cond_param_set_spread_min(x, v), x->cond->spread_min, cl(0, 1e300))
                case 3: CLAMP(cond_param_set_bits(x, iv), x->cond->bits, icl(1))
                case 4: CLAMP(pred_param_set_eta(x, v), x->pred->eta, cl(0, 1))
                case 5: CLAMP(pred_param_set_eta_min(x, v), x->pred->eta_min, cl(0, 1))
                case 6: CLAMP(tree_param_set_n_inputs(x->cond->targs, iv), x->cond->targs->n_inputs, icl(1))
                case 7: CLAMP(tree_param_set_init_depth(x->cond->targs, iv), x->cond->targs->init_depth, icl(1))
                case 8: CLAMP(tree_param_set_max_len(x->cond->targs, iv), x->cond->targs->max_len, icl(1))
                case 9: CLAMP(graph_param_set_max_k(x->cond->dargs, iv), x->cond->dargs->max_k, icl(1))
                case 10: CLAMP(graph_param_set_max_t(x->cond->dargs, iv), x->cond->dargs->max_t, icl(1))
                case 11: CLAMP(graph_param_set_n(x->cond->dargs, iv), x->cond->dargs->n, icl(1))
                case 12: CLAMP(graph_param_set_n_inputs(x->cond->dargs, iv), x->cond->dargs->n_inputs, icl(1))
                case 13: CLAMP(cond_param_set_min(x, v), x->cond->min, v)
                case 14: CLAMP(cond_param_set_max(x, v), x->cond->max, v)
                default: CLAMP(pred_param_set_x0(x, v), x->pred->x0, v)
            }
            CHECK(diff(before, snap_params(x)).empty(), "side-effect", "%s", diff(before, snap_params(x)).c_str());
        } else if (kind == 4) { // switches, lambda, selection type
            const bool b = s.flip();
            switch (s.below(8)) {
                case 0: param_set_pop_init(x, b); CHECK(x->POP_INIT == b, "value", "pop_init"); break;
                case 1: param_set_stateful(x, b); CHECK(x->STATEFUL == b, "value", "stateful"); break;
                case 2: param_set_compaction(x, b); CHECK(x->COMPACTION == b, "value", "compaction"); break;
                case 3: param_set_set_subsumption(x, b); CHECK(x->SET_SUBSUMPTION == b, "value", "set_subsumption"); break;
                case 4: ea_param_set_subsumption(x, b); CHECK(x->ea->subsumption == b, "value", "ea subsumption"); break;
                case 5: ea_param_set_pred_reset(x, b); CHECK(x->ea->pred_reset == b, "value", "pred_reset"); break;
                case 6: {
                    const int v = gen_int(s), old = x->ea->lambda;
                    const char *e = ea_param_set_lambda(x, v);
                    CHECK((e == nullptr) == (v >= 2), "range", "lambda = %d was %s", v, e ? "refused" : "accepted");
                    CHECK(x->ea->lambda == (v >= 2 ? v : old), "value", "lambda = %d left %d", v, x->ea->lambda);
                    break;
                }
                default: {
                    const int v = s.range(-2, 4), old = x->ea->select_type;
                    const bool legal = v == EA_SELECT_ROULETTE || v == EA_SELECT_TOURNAMENT;
                    const int r = ea_param_set_select_type(x, v);
                    CHECK((r != EA_SELECT_INVALID) == legal && x->ea->select_type == (legal ? v : old), "range", "selection type %d", v);
                }
            }
        } else { // loss, population file
            if (s.flip()) {
                const int v = s.range(-2, LOSS_NUM + 1), old = x->LOSS_FUNC;
                const bool legal = v >= 0 && v < LOSS_NUM;
                CHECK(lib_exits([&] { param_set_loss_func(x, v); }) == !legal, "range", "loss %d", v);
                CHECK(x->LOSS_FUNC == (legal ? v : old), "value", "loss %d left %d", v, x->LOSS_FUNC);
                const std::string name = s.pick(std::vector<std::string>{"mae", "mse", "rmse", "log", "binary_log", "onehot", "huber", "ma", "maee", "", "hube", "Onehot?"});
                static const std::map<std::string, int> ok = {{"mae", LOSS_MAE}, {"mse", LOSS_MSE}, {"rmse", LOSS_RMSE}, {"log", LOSS_LOG}, {"binary_log", LOSS_BINARY_LOG}, {"onehot", LOSS_ONEHOT}, {"huber", LOSS_HUBER}};
                auto it = ok.find(name);
                const int now = x->LOSS_FUNC, r = param_set_loss_func_string(x, name.c_str());
                CHECK((r != PARAM_INVALID) == (it != ok.end()), "range", "loss '%s' %s", name.c_str(), r == PARAM_INVALID ? "refused" : "accepted");
                CHECK(x->LOSS_FUNC == (it == ok.end() ? now : it->second), "value", "loss '%s' left %d", name.c_str(), x->LOSS_FUNC);
                param_set_loss_func(x, LOSS_MAE);
            } else {
                std::string f;
                const int len = s.range(0, 60);
                for (int i = 0; i < len; ++i) f += (char) ('!' + s.below(90));
                param_set_population_file(x, f.c_str());
                CHECK(f == x->population_file, "value", "population file '%s' read back as '%s'", f.c_str(), x->population_file);
                param_set_population_file(x, "");
            }
        }
        c.count("settings");
    }
    c.count("out of range", refused);
    c.nontrivial = refused > 2;
}

// ---- export / import
typedef std::vector<std::pair<std::string, double>> KV;
static void layers(KV &o, const char *pre, const ArgsLayer *l)
{
    int k = 0;
    for (; l; l = l->next, ++k) {
        auto put = [&](const char *n, double v) { o.push_back({fmt("%s layer %d %s", pre, k, n), v}); };
        put("type", l->type);
        const bool image = layer_receives_images(l->type);
        const bool plain = l->type == DROPOUT || l->type == NOISE || l->type == SOFTMAX;
        if (!plain && l->type != AVGPOOL && l->type != MAXPOOL && l->type != UPSAMPLE) put("activation", l->function);
        if (l->type == LSTM) put("recurrent activation", l->recurrent_function);
        if (image) {
            put("height", l->height), put("width", l->width), put("channels", l->channels);
            if (l->size > 0) put("size", l->size);
            if (l->stride > 0) put("stride", l->stride);
            if (l->pad > 0) put("pad", l->pad);
        }
        if (l->type == NOISE || l->type == DROPOUT) put("probability", l->probability);
        if (l->type == NOISE || l->type == SOFTMAX) put("scale", l->scale);
        if (plain || l->type == MAXPOOL) continue;
        if (l->n_init > 0) put("n_init", l->n_init);
        put("evolve_weights", l->evolve_weights), put("evolve_functions", l->evolve_functions);
        put("evolve_connect", l->evolve_connect), put("evolve_neurons", l->evolve_neurons);
        if (l->evolve_neurons) put("n_max", l->n_max), put("max_neuron_grow", l->max_neuron_grow);
        put("sgd_weights", l->sgd_weights);
        if (l->sgd_weights) {
            put("eta", l->eta), put("evolve_eta", l->evolve_eta), put("momentum", l->momentum), put("decay", l->decay);
            if (l->evolve_eta) put("eta_min", l->eta_min);
        }
    }
    o.push_back({fmt("%s layers", pre), (double) k});
}
// the settings that apply under the current configuration, by top-level key
static std::map<std::string, KV> settings(const XCSF *x)
{
    std::map<std::string, KV> m;
    auto top = [&](const char *n, double v) { m[n].push_back({n, v}); };
    top("x_dim", x->x_dim), top("y_dim", x->y_dim), top("n_actions", x->n_actions), top("omp_num_threads", x->OMP_NUM_THREADS);
    top("random_state", x->RANDOM_STATE), top("pop_init", x->POP_INIT), top("max_trials", x->MAX_TRIALS), top("perf_trials", x->PERF_TRIALS);
    top("pop_size", x->POP_SIZE), top("loss_func", x->LOSS_FUNC), top("set_subsumption", x->SET_SUBSUMPTION), top("theta_sub", x->THETA_SUB);
    top("e0", x->E0), top("alpha", x->ALPHA), top("nu", x->NU), top("beta", x->BETA), top("delta", x->DELTA), top("theta_del", x->THETA_DEL);
    top("init_fitness", x->INIT_FITNESS), top("init_error", x->INIT_ERROR), top("m_probation", x->M_PROBATION), top("stateful", x->STATEFUL), top("compaction", x->COMPACTION);
    if (x->LOSS_FUNC == LOSS_HUBER) top("huber_delta", x->HUBER_DELTA);
    if (x->n_actions > 1) top("gamma", x->GAMMA), top("teletransportation", x->TELETRANSPORTATION), top("p_explore", x->P_EXPLORE);
    KV &e = m["ea"];
    e.push_back({"select_type", x->ea->select_type});
    if (x->ea->select_type == EA_SELECT_TOURNAMENT) e.push_back({"select_size", x->ea->select_size});
    e.push_back({"theta_ea", x->ea->theta}), e.push_back({"lambda", x->ea->lambda}), e.push_back({"p_crossover", x->ea->p_crossover});
    e.push_back({"err_reduc", x->ea->err_reduc}), e.push_back({"fit_reduc", x->ea->fit_reduc}), e.push_back({"subsumption", x->ea->subsumption}), e.push_back({"pred_reset", x->ea->pred_reset});
    const int ct = x->cond->type, pt = x->pred->type;
    if (x->n_actions > 1 && ct != RULE_TYPE_DGP && ct != RULE_TYPE_NEURAL) {
        KV &a = m["action"];
        a.push_back({"action type", x->act->type});
        if (x->act->type == ACT_TYPE_NEURAL) layers(a, "action", x->act->largs);
    }
    KV &c = m["condition"];
    auto C = [&](const char *n, double v) { c.push_back({n, v}); };
    C("condition type", ct);
    if (ct == COND_TYPE_HYPERRECTANGLE_CSR || ct == COND_TYPE_HYPERRECTANGLE_UBR || ct == COND_TYPE_HYPERELLIPSOID)
        C("cond eta", x->cond->eta), C("cond min", x->cond->min), C("cond max", x->cond->max), C("spread_min", x->cond->spread_min);
    if (ct == COND_TYPE_TERNARY) C("p_dontcare", x->cond->p_dontcare), C("bits", x->cond->bits);
    if (ct == COND_TYPE_GP)
        C("min_constant", x->cond->targs->min), C("max_constant", x->cond->targs->max), C("n_constants", x->cond->targs->n_constants), C("init_depth", x->cond->targs->init_depth), C("max_len", x->cond->targs->max_len);
    if (ct == COND_TYPE_DGP || ct == RULE_TYPE_DGP)
        C("max_k", x->cond->dargs->max_k), C("max_t", x->cond->dargs->max_t), C("n", x->cond->dargs->n), C("evolve_cycles", x->cond->dargs->evolve_cycles);
    if (ct == COND_TYPE_NEURAL || ct == RULE_TYPE_NEURAL) layers(c, "condition", x->cond->largs);
    KV &p = m["prediction"];
    auto P = [&](const char *n, double v) { p.push_back({n, v}); };
    P("prediction type", pt);
    if (pt == PRED_TYPE_NLMS_LINEAR || pt == PRED_TYPE_NLMS_QUADRATIC) {
        P("pred x0", x->pred->x0), P("pred eta", x->pred->eta), P("pred evolve_eta", x->pred->evolve_eta);
        if (x->pred->evolve_eta) P("pred eta_min", x->pred->eta_min);
    }
    if (pt == PRED_TYPE_RLS_LINEAR || pt == PRED_TYPE_RLS_QUADRATIC) P("pred x0", x->pred->x0), P("pred lambda", x->pred->lambda), P("scale_factor", x->pred->scale_factor);
    if (pt == PRED_TYPE_NEURAL) layers(p, "prediction", x->pred->largs);
    return m;
}
static std::string cmp(const KV &a, const KV &b)
{
    for (size_t i = 0; i < a.size() && i < b.size(); ++i) {
        if (a[i].first != b[i].first) return "'" + a[i].first + "' became '" + b[i].first + "'";
        if (!close(a[i].second, b[i].second, 1e-15, 0)) return fmt("%s: %.17g became %.17g", a[i].first.c_str(), a[i].second, b[i].second);
    }
    return a.size() == b.size() ? "" : "different settings";
}
// random extra values on top of a generated configuration
static void vary(Src &s, XCSF *x)
{
    for (const auto &t : dsets)
        if (s.flip()) {
            double v = t.hi == 1 ? s.unit() : fabs(gen_dbl(s));
            if (v < 1e-290 && v != 0) v = 0.1;
            t.set(x, v);
        }
    for (const auto &t : esets)
        if (s.flip()) t.set(x, t.hi == 1 ? s.unit() : s.uniform(0, 100));
    for (const auto &t : isets)
        if (s.flip() && t.field != &XCSF::x_dim && t.field != &XCSF::y_dim && t.field != &XCSF::n_actions && t.field != &XCSF::OMP_NUM_THREADS) t.set(x, s.range(1, 3000));
    param_set_pop_init(x, s.flip());
    param_set_compaction(x, s.flip());
    param_set_stateful(x, s.flip());
    param_set_set_subsumption(x, s.flip());
    ea_param_set_subsumption(x, s.flip());
    ea_param_set_pred_reset(x, s.flip());
    ea_param_set_select_type(x, s.flip() ? EA_SELECT_ROULETTE : EA_SELECT_TOURNAMENT);
    cond_param_set_eta(x, s.unit());
    cond_param_set_min(x, s.uniform(-5, 0));
    cond_param_set_max(x, s.uniform(1, 5));
    cond_param_set_spread_min(x, s.uniform(0, 3));
    pred_param_set_x0(x, s.uniform(-5, 5));
    pred_param_set_eta(x, s.unit());
    pred_param_set_eta_min(x, s.unit());
    pred_param_set_lambda(x, s.unit());
    pred_param_set_scale_factor(x, s.uniform(0, 2000));
    if (s.flip()) {
        std::string f;
        const int len = s.range(0, 30);
        for (int i = 0; i < len; ++i) f += "abc/._-XYZ\"\\ \t"[s.below(14)];
        param_set_population_file(x, f.c_str());
    }
}
static void shuffle(Src &s, cJSON *o)
{
    if (!cJSON_IsObject(o)) return;
    std::vector<cJSON *> v;
    bool layers = false;
    while (o->child) {
        if (!strncmp(o->child->string, "layer_", 6)) layers = true;
        v.push_back(cJSON_DetachItemViaPointer(o, o->child));
    }
    if (!layers)
        for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[s.below(i)]);
    for (cJSON *c : v) {
        shuffle(s, c);
        const std::string name = c->string;
        cJSON_AddItemToObject(o, name.c_str(), c);
    }
}
static std::string take(char *p)
{
    std::string s = p;
    free(p);
    return s;
}
struct Bare { // parameters only
    XCSF x;
    bool init = false;
    Bare(int a, int b, int n)
    {
        memset(&x, 0, sizeof x);
        param_init(&x, a, b, n);
        seed_rng(7);
    }
    void start() { xcsf_init(&x), init = true; }
    ~Bare()
    {
        if (init) xcsf_free(&x);
        param_free(&x);
    }
    Bare(const Bare &) = delete;
};
static void all_keys(cJSON *o, std::vector<cJSON *> &v)
{
    for (cJSON *c = o->child; c; c = c->next) {
        if (strcmp(c->string, "version") && strncmp(c->string, "layer_", 6)) v.push_back(c);
        if (cJSON_IsObject(c)) all_keys(c, v);
    }
}
static void round_trip(Src &s, Case &c)
{
    CfgOpt o;
    o.net_level = 2;
    o.pop_init = false;
    Cfg g = gen_cfg(s, o);
    g.pop_init = false;
    Bare a(g.x_dim, g.y_dim, g.n_actions);
    apply_cfg(&a.x, g);
    vary(s, &a.x);
    c.desc << g.str();
    const std::string t1 = take(param_json_export(&a.x));
    const auto want = settings(&a.x);
    const std::string file = a.x.population_file;
    cJSON *j = cJSON_Parse(t1.c_str());
    CHECK(j != nullptr, "export-json", "the export is not JSON");
    struct Del {
        cJSON *j;
        ~Del() { cJSON_Delete(j); }
    } del{j};
    // each applicable top-level setting is present
    for (auto &k : want) CHECK(cJSON_GetObjectItemCaseSensitive(j, k.first.c_str()), "export-missing", "the export lacks %s", k.first.c_str());
    const int mode = s.pickw({4, 3, 3});
    if (mode == 2) { // a malformed variant must be refused
        std::vector<cJSON *> keys;
        all_keys(j, keys);
        cJSON *k = keys[s.below(keys.size())];
        std::string what;
        if (s.flip()) {
            std::string name = k->string;
            const std::string old = name;
            if (s.flip() && name.size() > 1) name.erase(s.below(name.size()), 1);
            else name.insert(s.below(name.size() + 1), 1, "abz_"[s.below(4)]);
            if (name == old) return;
            what = "name " + old + " -> " + name;
            free(k->string);
            k->string = strdup(name.c_str());
        } else {
            // an item of another type, appended under the same name in its place
            cJSON *n;
            const int t = s.range(0, 4);
            if (t == 0) n = cJSON_IsNumber(k) ? cJSON_CreateString("7") : cJSON_CreateNumber(7);
            else if (t == 1) n = cJSON_CreateNull();
            else if (t == 2) n = cJSON_CreateArray();
            else if (t == 3) n = cJSON_IsBool(k) ? cJSON_CreateString("true") : cJSON_CreateBool(1);
            else n = cJSON_IsString(k) ? cJSON_CreateNumber(1) : cJSON_CreateString("?");
            what = std::string("value of ") + k->string + " -> " + take(cJSON_PrintUnformatted(n));
            n->string = strdup(k->string);
            // replace in the owning list
            std::function<bool(cJSON *)> rep = [&](cJSON *p) {
                for (cJSON *q = p->child; q; q = q->next) {
                    if (q == k) return (bool) cJSON_ReplaceItemViaPointer(p, q, n);
                    if (cJSON_IsObject(q) && rep(q)) return true;
                }
                return false;
            };
            rep(j);
        }
        const std::string t = take(cJSON_Print(j));
        c.desc << " malformed: " << what;
        Bare b(g.x_dim, g.y_dim, g.n_actions);
        const bool ex = lib_exits([&] { param_json_import(&b.x, t.c_str()); });
        CHECK(ex, "accepted", "%s was accepted", what.c_str());
        c.count("malformed settings refused");
        c.nontrivial = true;
        return;
    }
    Bare b(s.range(1, 6), s.range(1, 3), s.range(1, 4));
    if (s.flip()) vary(s, &b.x);
    if (mode == 0) { // everything
        const bool shuffled = s.flip();
        if (shuffled) shuffle(s, j);
        const std::string t = take(s.flip() ? cJSON_Print(j) : cJSON_PrintUnformatted(j));
        CHECK(!lib_exits([&] { param_json_import(&b.x, t.c_str()); }), "refused", "exported settings were refused");
        const auto got = settings(&b.x);
        for (auto &k : want) {
            auto it = got.find(k.first);
            CHECK(it != got.end(), "lost", "%s lost", k.first.c_str());
            const std::string d = cmp(k.second, it->second);
            CHECK(d.empty(), "changed", "%s", d.c_str());
        }
        CHECK(got.size() == want.size(), "lost", "applicable settings differ");
        CHECK(file == b.x.population_file, "changed", "population file '%s' became '%s'", file.c_str(), b.x.population_file);
        if (s.flip() || shuffled) {
            // inputs of networks are settled when the system is initialised
            param_set_population_file(&b.x, "");
            const bool pi = b.x.POP_INIT;
            b.x.POP_INIT = false;
            b.start();
            b.x.POP_INIT = pi;
            param_set_population_file(&b.x, file.c_str());
            auto head = [&](const ArgsLayer *l) { return !l || layer_receives_images(l->type) || l->n_inputs == g.x_dim; };
            CHECK(b.x.cond->targs->n_inputs == g.x_dim && b.x.cond->dargs->n_inputs == g.x_dim, "inputs", "trees read %d and graphs %d of %d inputs", b.x.cond->targs->n_inputs, b.x.cond->dargs->n_inputs, g.x_dim);
            CHECK(head(b.x.cond->largs) && head(b.x.pred->largs) && head(b.x.act->largs), "inputs", "a network does not read all %d inputs", g.x_dim);
        }
        const std::string t2 = take(param_json_export(&b.x));
        CHECK(t1 == t2, "export-differs", "exporting again gives another text");
        c.count("complete imports");
        c.nontrivial = true;
    } else { // some settings only
        const auto before = settings(&b.x);
        const std::string fbefore = b.x.population_file;
        cJSON *sub = cJSON_CreateObject();
        Del del2{sub};
        std::set<std::string> named;
        for (cJSON *k = j->child; k; k = k->next)
            if (s.chance(1, 3) && strcmp(k->string, "x_dim") && strcmp(k->string, "y_dim") && strcmp(k->string, "n_actions")) {
                named.insert(k->string);
                cJSON_AddItemToObject(sub, k->string, cJSON_Duplicate(k, 1));
            }
        // networks only fit the dimensions they were made for
        b.x.x_dim = g.x_dim;
        b.x.y_dim = g.y_dim;
        b.x.n_actions = g.n_actions;
        // settings that apply only with others keep their own values
        const auto pre = settings(&b.x);
        shuffle(s, sub);
        const std::string t = take(cJSON_Print(sub));
        CHECK(!lib_exits([&] { param_json_import(&b.x, t.c_str()); }), "refused", "exported settings were refused");
        const auto got = settings(&b.x);
        for (auto &k : got) {
            auto w = named.count(k.first) ? want.find(k.first) : pre.find(k.first);
            if (w == (named.count(k.first) ? want.end() : pre.end())) continue; // applies only now
            const std::string d = cmp(w->second, k.second);
            CHECK(d.empty(), named.count(k.first) ? "changed" : "unnamed", "%s%s", named.count(k.first) ? "" : "a setting that was not named: ", d.c_str());
        }
        CHECK((named.count("population_file") ? file : fbefore) == b.x.population_file, "changed", "population file became '%s'", b.x.population_file);
        c.count("partial imports");
        c.nontrivial = named.size() > 3;
    }
}
static void run(Src &s, Case &c)
{
    if (s.chance(1, 12)) return names(s, c);
    if (s.chance(1, 4)) return setters(s, c);
    round_trip(s, c);
}
const Property pbt::property = {
    "C23",
    "generator: sequences of settings with in-range, boundary and out-of-range values, and complete random configurations (all condition, action, prediction and layer types) exported, key-shuffled, cut to subsets or malformed, then imported into another system; oracle: the documented ranges, the values set, an independent list of the settings that apply, and refusal of every misspelt or ill-typed setting and of names that are no (or another kind of) type, loss, activation or selection; non-trivial: setter sequences with at least three out-of-range values, complete or malformed imports, and partial imports naming at least four settings",
    run, 90000, 2500000, 20};
