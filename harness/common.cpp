#include "common.hpp"
#include <map>

extern "C" size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
size_t live_bytes()
{
    return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0;
}

void seed_rng(uint32_t seed)
{
    rand_init_seed(12345);
    const double a = rand_uniform(0, 1);
    rand_init_seed(12345);
    rand_normal(0, 1);
    const double b = rand_uniform(0, 1);
    if (a != b) rand_normal(0, 1); // a cached value was left: use it up
    rand_init_seed(seed);
}

static int pick_activation(Src &s)
{
    return (int) s.below(NUM_ACTIVATIONS);
}
static ArgsLayer base_layer(Src &s, const NetOpt &o, int type)
{
    ArgsLayer a;
    layer_args_init(&a);
    a.type = type;
    if (type == CONNECTED || type == RECURRENT || type == LSTM || type == CONVOLUTIONAL) {
        a.function = pick_activation(s);
        if (type == LSTM) {
            static const int f[] = {LOGISTIC, TANH, SIN, COS, GAUSSIAN};
            a.recurrent_function = f[s.below(3)];
            a.function = f[s.below(5)];
        }
        if (o.sgd && s.chance(3, 4)) {
            a.sgd_weights = true;
            a.eta = s.real(0.001, 0.2);
            a.eta_min = s.chance(1, 2) ? 0.0001 : 0.001;
            a.evolve_eta = s.flip();
            a.momentum = s.chance(1, 2) ? 0 : s.real(0, 0.95);
            a.decay = s.chance(2, 3) ? 0 : s.real(0, 0.1);
        }
        if (o.evolve) {
            a.evolve_weights = s.chance(2, 3);
            a.evolve_functions = s.chance(1, 4);
            a.evolve_connect = s.chance(1, 3);
            a.evolve_neurons = s.chance(1, 3);
            a.max_neuron_grow = a.evolve_neurons ? s.range(1, o.big ? 9 : 3) : 0;
        }
    }
    return a;
}
std::vector<ArgsLayer> gen_net(Src &s, int n_in, int n_out, const NetOpt &o)
{
    std::vector<ArgsLayer> v;
    int h = 1, w = n_in, c = 1, n = n_in;
    if (o.images) {
        // factorise the input into an image
        std::vector<int> dc, dh;
        for (int i = 1; i <= 3 && i <= n_in; ++i)
            if (n_in % i == 0) dc.push_back(i);
        c = s.pick(dc);
        for (int i = 1; i <= n_in / c; ++i)
            if ((n_in / c) % i == 0) dh.push_back(i);
        h = dh[dh.size() == 1 ? 0 : s.below(dh.size())];
        w = n_in / c / h;
        const int k = s.range(1, o.big ? 4 : 2);
        for (int i = 0; i < k; ++i) {
            static const int types[] = {CONVOLUTIONAL, MAXPOOL, AVGPOOL, UPSAMPLE};
            const int t = types[s.pickw({5, 2, 1, 2})];
            ArgsLayer a = base_layer(s, o, t);
            if (t == CONVOLUTIONAL) {
                a.size = s.range(1, o.big ? 6 : 4);
                a.stride = s.pickw({5, 4, 2, 1}) + 1;
                a.pad = s.pickw({4, 3, 3, 1});
                while (h + 2 * a.pad < a.size || w + 2 * a.pad < a.size) ++a.pad;
                a.n_init = s.range(1, o.big ? 9 : 3);
                a.n_max = a.n_init + (a.evolve_neurons ? s.range(0, o.big ? 9 : 3) : 0);
            } else if (t == MAXPOOL) {
                a.size = s.range(1, 4);
                if (a.size > h) a.size = h;
                if (a.size > w) a.size = w;
                a.stride = s.pickw({5, 4, 2, 1}) + 1;
                a.pad = s.range(0, 2 * (a.size - 1)); // every window meets the image
            } else if (t == UPSAMPLE) {
                a.stride = h * w * c > 300 ? 1 : s.range(1, 3);
            }
            if (v.empty()) {
                a.height = h;
                a.width = w;
                a.channels = c;
                a.n_inputs = n_in;
            }
            if (t == CONVOLUTIONAL) {
                h = (h + 2 * a.pad - a.size) / a.stride + 1;
                w = (w + 2 * a.pad - a.size) / a.stride + 1;
                c = a.n_init;
            } else if (t == MAXPOOL) {
                h = (h + a.pad - a.size) / a.stride + 1;
                w = (w + a.pad - a.size) / a.stride + 1;
            } else if (t == AVGPOOL) {
                h = w = 1;
            } else {
                h *= a.stride;
                w *= a.stride;
            }
            n = h * w * c;
            v.push_back(a);
        }
    }
    const int nh = s.range(0, o.big ? 6 : o.max_hidden);
    for (int i = 0; i < nh; ++i) {
        int t = CONNECTED;
        if (o.level >= 1) {
            t = s.pickw({6, 1, 1, 1, 2, 2});
            if ((t == DROPOUT || t == NOISE) && !o.stochastic) t = CONNECTED;
            if ((t == RECURRENT || t == LSTM) && !o.recurrent) t = CONNECTED;
        }
        ArgsLayer a = base_layer(s, o, t);
        if (t == CONNECTED || t == RECURRENT || t == LSTM) {
            a.n_init = s.range(1, o.big ? 24 : o.max_neurons);
            a.n_max = a.n_init + (a.evolve_neurons ? s.range(0, o.big ? 12 : 4) : 0);
            n = a.n_init;
        } else {
            a.n_init = n;
        }
        if (t == DROPOUT || t == NOISE) a.probability = s.real(0, 0.9);
        if (t == NOISE) a.scale = s.real(0, 1);
        if (t == SOFTMAX) a.scale = s.chance(1, 2) ? 1 : s.chance(1, 8) ? s.real(0.02, 10) : s.real(0.1, 3);
        if (v.empty()) a.n_inputs = n_in;
        if (v.empty() && (t == DROPOUT || t == NOISE || t == SOFTMAX)) {
            a.height = 1;
            a.channels = 1;
            a.width = n_in;
        }
        v.push_back(a);
    }
    {
        int t = CONNECTED;
        if (o.level >= 1 && o.recurrent) {
            t = s.pickw({5, 1, 1});
            t = t == 0 ? CONNECTED : t == 1 ? RECURRENT : LSTM;
        }
        ArgsLayer a = base_layer(s, o, t);
        a.evolve_neurons = false;
        a.max_neuron_grow = 0;
        a.n_init = a.n_max = n_out;
        if (o.safe_out) {
            static const int safe[] = {LOGISTIC, LINEAR, TANH, SIN, SOFT_PLUS, LEAKY, SELU, RELU};
            if (t != LSTM) a.function = safe[s.below(8)];
            else a.function = TANH, a.recurrent_function = LOGISTIC;
            a.evolve_functions = false;
        }
        if (v.empty()) a.n_inputs = n_in;
        v.push_back(a);
        if (o.softmax_out && s.chance(1, 3)) {
            ArgsLayer b = base_layer(s, o, SOFTMAX);
            b.n_init = b.n_max = n_out;
            b.scale = !o.temp || s.chance(1, 3) ? 1 : s.chance(1, 6) ? s.real(0.02, 10) : s.real(0.1, 3);
            v.push_back(b);
        }
    }
    return v;
}
ArgsLayer *make_largs(const std::vector<ArgsLayer> &v)
{
    ArgsLayer *head = nullptr, **tail = &head;
    for (const ArgsLayer &a : v) {
        ArgsLayer *n = (ArgsLayer *) malloc(sizeof(ArgsLayer));
        *n = a;
        n->next = nullptr;
        *tail = n;
        tail = &n->next;
    }
    return head;
}
std::string net_str(const std::vector<ArgsLayer> &v)
{
    std::ostringstream o;
    for (const ArgsLayer &a : v) {
        o << "[" << layer_type_as_string(a.type);
        if (a.type == CONVOLUTIONAL || a.type == MAXPOOL || a.type == UPSAMPLE)
            o << " k" << a.size << "s" << a.stride << "p" << a.pad;
        if (a.n_init) o << " n" << a.n_init << "<=" << a.n_max;
        if (a.type == CONNECTED || a.type == RECURRENT || a.type == LSTM ||
            a.type == CONVOLUTIONAL)
            o << " f" << a.function << (a.sgd_weights ? " sgd" : "")
              << (a.evolve_weights ? " ew" : "") << (a.evolve_neurons ? " en" : "")
              << (a.evolve_connect ? " ec" : "") << (a.evolve_functions ? " ef" : "")
              << (a.evolve_eta ? " ee" : "");
        o << "]";
    }
    return o.str();
}

bool Cfg::has_state() const
{
    if ((cond == COND_TYPE_DGP || cond == RULE_TYPE_DGP) && stateful) return true;
    auto rec = [](const std::vector<ArgsLayer> &v) {
        for (const ArgsLayer &a : v)
            if (a.type == RECURRENT || a.type == LSTM) return true;
        return false;
    };
    if ((cond == COND_TYPE_NEURAL || cond == RULE_TYPE_NEURAL) && rec(cnet)) return true;
    if (pred == PRED_TYPE_NEURAL && rec(pnet)) return true;
    if (act == ACT_TYPE_NEURAL && rec(anet)) return true;
    return false;
}
bool Cfg::stochastic() const
{
    auto st = [](const std::vector<ArgsLayer> &v) {
        for (const ArgsLayer &a : v)
            if (a.type == DROPOUT || a.type == NOISE) return true;
        return false;
    };
    return ((cond == COND_TYPE_NEURAL || cond == RULE_TYPE_NEURAL) && st(cnet)) ||
        (pred == PRED_TYPE_NEURAL && st(pnet)) || (act == ACT_TYPE_NEURAL && st(anet));
}
std::string Cfg::str() const
{
    std::ostringstream o;
    o << "x" << x_dim << " y" << y_dim << " a" << n_actions << " N" << pop_size
      << (pop_init ? " init" : "") << " cond=" << condition_type_as_string(cond)
      << " pred=" << prediction_type_as_string(pred);
    if (n_actions > 1 && !rule_type()) o << " act=" << action_type_as_string(act);
    o << " loss=" << loss_type_as_string(loss) << " beta=" << beta << " e0=" << e0
      << " theta_ea=" << theta_ea << " lambda=" << lambda_ea << " px=" << p_cross
      << (set_sub ? " setsub" : "") << (ea_sub ? " easub" : "") << (compaction ? " compact" : "")
      << (stateful ? " stateful" : "") << (pred_reset ? " predreset" : "") << " tsub=" << theta_sub
      << " tdel=" << theta_del << " mprob=" << m_prob << " sel=" << sel_type << " seed=" << seed;
    if (cond == COND_TYPE_NEURAL || cond == RULE_TYPE_NEURAL) o << " cnet=" << net_str(cnet);
    if (pred == PRED_TYPE_NEURAL) o << " pnet=" << net_str(pnet);
    if (act == ACT_TYPE_NEURAL && n_actions > 1) o << " anet=" << net_str(anet);
    return o.str();
}

Cfg gen_cfg(Src &s, const CfgOpt &o)
{
    Cfg c;
    c.seed = (uint32_t) s.below(1u << 20) + 1;
    const bool rl = o.mode == 1 || (o.mode == 2 && s.chance(1, 3));
    c.cond = s.pick(o.conds);
    c.pred = s.pick(o.preds);
    c.x_dim = s.range(1, o.max_x);
    c.y_dim = rl ? 1 : s.range(1, o.max_y);
    c.n_actions = rl ? s.range(2, o.max_actions) : 1;
    const bool wide = o.wide && s.chance(1, 12); // now and then many variables, outputs or actions
    const bool room = o.net_level >= 2 && s.chance(1, 8); // room for images
    if (room) c.x_dim = s.pick(std::vector<int>{9, 12, 16});
    if (wide) {
        const bool quad = c.pred == PRED_TYPE_NLMS_QUADRATIC || c.pred == PRED_TYPE_RLS_QUADRATIC;
        if (s.flip()) c.x_dim = s.range(5, quad ? 12 : c.pred == PRED_TYPE_RLS_LINEAR ? 20 : 40);
        if (!rl && s.flip()) c.y_dim = s.range(4, quad ? 5 : 14);
        if (rl && !c.rule_type() && s.flip()) c.n_actions = s.range(5, 20);
    }
    c.omp = s.range(1, 3);
    c.pop_size = s.small(1, o.max_pop);
    const bool nets = c.cond == COND_TYPE_NEURAL || c.cond == RULE_TYPE_NEURAL || c.pred == PRED_TYPE_NEURAL;
    if (o.wide && !nets && c.x_dim <= 4 && s.chance(1, 40)) {
        c.crowd = s.range(60, 300); // a large population
        c.pop_size += c.crowd;
    }
    if (rl && c.pop_size < 3 * c.n_actions + 2) c.pop_size = 3 * c.n_actions + 2;
    c.pop_init = o.pop_init && s.chance(1, 3);
    c.loss = s.pick(std::vector<int>{LOSS_MAE, LOSS_MSE, LOSS_RMSE, LOSS_HUBER});
    c.huber = s.real(0.1, 2);
    c.e0 = s.chance(1, 24) ? 0 : s.chance(1, 3) ? s.real(0.2, 2) : s.real(0.001, 0.2);
    c.alpha = s.chance(1, 16) ? s.pick(std::vector<double>{0, 1}) : s.real(0.05, 1);
    c.nu = s.chance(1, 16) ? 0 : s.real(0.3, 8);
    c.beta = s.chance(1, 24) ? 0 : s.chance(1, 6) ? 1 : s.real(0.05, 0.9);
    c.delta = s.real(0, 1);
    c.theta_del = s.small(0, 30);
    c.init_fit = s.chance(1, 16) ? 0 : s.real(0.001, 1);
    c.init_err = s.chance(1, 2) ? 0 : s.real(0, 2);
    c.m_prob = s.chance(1, 2) ? 10000 : s.range(0, 30);
    c.stateful = o.stateful && s.chance(1, 3);
    c.compaction = s.chance(1, 3);
    c.gamma = s.real(0, 1);
    c.p_explore = s.real(0, 1);
    c.tele = s.range(2, 20);
    c.set_sub = s.chance(1, 2);
    c.theta_sub = s.small(0, 30);
    c.sel_type = s.chance(1, 2) ? EA_SELECT_TOURNAMENT : EA_SELECT_ROULETTE;
    c.sel_size = s.chance(1, 12) ? 0 : s.real(0.05, 1);
    c.theta_ea = s.chance(1, 3) ? 0 : s.real(0, 40);
    c.p_cross = s.real(0, 1);
    c.err_red = s.real(0, 1);
    c.fit_red = s.chance(1, 16) ? 0 : s.real(0.01, 1);
    c.lambda_ea = s.chance(1, 4) ? s.range(2, 8) : 2;
    c.lambda_ea -= c.lambda_ea % 2;
    c.ea_sub = s.flip();
    c.pred_reset = s.chance(1, 3);
    c.c_eta = s.chance(1, 2) ? 0 : s.real(0, 0.5);
    if (s.chance(1, 3)) {
        c.c_min = -1;
        c.c_max = s.pick(std::vector<double>{1, 1, 2, 2, 0.25, 0, -0.5});
    }
    c.spread_min = s.real(0.05, 0.6);
    c.p_dc = s.real(0.1, 0.9);
    c.bits = wide ? s.range(1, 12) : s.range(1, 3);
    c.gp_min = s.chance(1, 2) ? 0 : -1;
    c.gp_max = 1;
    c.gp_nc = s.range(1, 8);
    c.gp_depth = s.range(1, 4);
    c.gp_maxlen = s.range(40, 120);
    c.d_evolve = s.flip();
    c.d_k = s.range(1, 3);
    c.d_t = s.range(1, 6);
    c.d_n = s.range(c.rule_type() ? 4 : 2, 8);
    NetOpt no;
    no.level = o.net_level >= 1 ? 1 : 0;
    no.stochastic = o.stochastic;
    no.recurrent = o.recurrent;
    if (c.cond == COND_TYPE_NEURAL || c.cond == RULE_TYPE_NEURAL) {
        NetOpt q = no;
        q.sgd = false;
        q.safe_out = true;
        q.images = o.net_level >= 2 && s.chance(room ? 4 : 2, 6);
        int nout = 1;
        if (c.cond == RULE_TYPE_NEURAL)
            nout = (int) fmax(1, ceil(log2(c.n_actions))) + 1;
        c.cnet = gen_net(s, c.x_dim, nout, q);
        // covering draws random networks until one fits: keep that reachable
        for (auto &a : c.cnet)
            if (a.type == SOFTMAX || a.type == DROPOUT) {
                a.type = CONNECTED;
                a.n_max = a.n_init;
                a.function = TANH;
            }
    }
    if (c.pred == PRED_TYPE_NEURAL) {
        NetOpt q = no;
        q.images = o.net_level >= 2 && s.chance(room ? 4 : 2, 6);
        if (o.softmax_pred && s.chance(1, 3)) q.softmax_out = q.temp = true;
        c.pnet = gen_net(s, c.x_dim, c.y_dim, q);
    }
    if (c.n_actions > 1 && c.n_actions <= std::max(4, o.max_actions) && o.act_neural && !c.rule_type() && s.chance(1, 4)) {
        c.act = ACT_TYPE_NEURAL;
        NetOpt q = no;
        q.sgd = false;
        q.softmax_out = q.temp = true;
        q.images = o.net_level >= 2 && s.chance(room ? 4 : 2, 6);
        c.anet = gen_net(s, c.x_dim, c.n_actions, q);
        for (auto &a : c.anet) {
            if (a.type == DROPOUT || (a.type == SOFTMAX && a.n_init == 1)) {
                a.type = CONNECTED;
                a.n_max = a.n_init;
                a.function = TANH;
            }
            // a covering network must be able to prefer every action
            if (a.function == RELU || a.function == GAUSSIAN || a.function == COS) a.function = TANH;
            a.evolve_functions = false;
        }
    }
    c.p_eta = s.real(0.01, 0.5);
    c.p_eta_min = s.chance(1, 2) ? 0.00001 : s.real(0, 0.01);
    c.p_evolve_eta = s.flip();
    c.p_lambda = s.chance(1, 2) ? 1 : s.real(0.9, 1);
    c.p_scale = s.chance(1, 3) ? 1000 : s.real(1, 100);
    c.p_x0 = s.chance(1, 2) ? 1 : s.real(0, 2);
    // (quadratic NLMS normalises by the linear features only: keep it stable)
    if (c.pred == PRED_TYPE_NLMS_QUADRATIC && c.c_max > 1) c.c_max = 1;
    return c;
}

void apply_cfg(XCSF *x, const Cfg &c)
{
    if (!c.pop_file.empty()) param_set_population_file(x, c.pop_file.c_str());
    param_set_omp_num_threads(x, c.omp);
    param_set_pop_size(x, c.pop_size);
    param_set_pop_init(x, c.pop_init);
    param_set_max_trials(x, c.max_trials);
    param_set_perf_trials(x, c.perf_trials);
    param_set_loss_func(x, c.loss);
    param_set_huber_delta(x, c.huber);
    param_set_e0(x, c.e0);
    param_set_alpha(x, c.alpha);
    param_set_nu(x, c.nu);
    param_set_beta(x, c.beta);
    param_set_delta(x, c.delta);
    param_set_theta_del(x, c.theta_del);
    param_set_init_fitness(x, c.init_fit);
    param_set_init_error(x, c.init_err);
    param_set_m_probation(x, c.m_prob);
    param_set_stateful(x, c.stateful);
    param_set_compaction(x, c.compaction);
    param_set_gamma(x, c.gamma);
    param_set_teletransportation(x, c.tele);
    param_set_p_explore(x, c.p_explore);
    param_set_set_subsumption(x, c.set_sub);
    param_set_theta_sub(x, c.theta_sub);
    ea_param_set_select_type(x, c.sel_type);
    ea_param_set_select_size(x, c.sel_size);
    ea_param_set_theta(x, c.theta_ea);
    ea_param_set_lambda(x, c.lambda_ea);
    ea_param_set_p_crossover(x, c.p_cross);
    ea_param_set_err_reduc(x, c.err_red);
    ea_param_set_fit_reduc(x, c.fit_red);
    ea_param_set_subsumption(x, c.ea_sub);
    ea_param_set_pred_reset(x, c.pred_reset);
    cond_param_set_type(x, c.cond);
    cond_param_set_eta(x, c.c_eta);
    cond_param_set_min(x, c.c_min);
    cond_param_set_max(x, c.c_max);
    cond_param_set_spread_min(x, c.spread_min);
    cond_param_set_p_dontcare(x, c.p_dc);
    cond_param_set_bits(x, c.bits);
    ArgsGPTree *t = x->cond->targs;
    tree_param_set_max(t, c.gp_max);
    tree_param_set_min(t, c.gp_min);
    tree_param_set_init_depth(t, c.gp_depth);
    tree_param_set_max_len(t, c.gp_maxlen);
    tree_param_set_n_constants(t, c.gp_nc);
    tree_param_set_n_inputs(t, c.x_dim);
    tree_args_init_constants(t);
    ArgsDGP *d = x->cond->dargs;
    graph_param_set_max_k(d, c.d_k);
    graph_param_set_max_t(d, c.d_t);
    graph_param_set_n(d, c.d_n);
    graph_param_set_n_inputs(d, c.x_dim);
    graph_param_set_evolve_cycles(d, c.d_evolve);
    if (!c.cnet.empty()) {
        layer_args_free(&x->cond->largs);
        x->cond->largs = make_largs(c.cnet);
        layer_args_validate(x->cond->largs);
    }
    if (!c.pnet.empty()) {
        layer_args_free(&x->pred->largs);
        x->pred->largs = make_largs(c.pnet);
        layer_args_validate(x->pred->largs);
    }
    action_param_set_type(x, c.act);
    if (!c.anet.empty()) {
        layer_args_free(&x->act->largs);
        x->act->largs = make_largs(c.anet);
        layer_args_validate(x->act->largs);
    }
    pred_param_set_type(x, c.pred);
    pred_param_set_eta(x, c.p_eta);
    pred_param_set_eta_min(x, c.p_eta_min);
    pred_param_set_lambda(x, c.p_lambda);
    pred_param_set_scale_factor(x, c.p_scale);
    pred_param_set_x0(x, c.p_x0);
    pred_param_set_evolve_eta(x, c.p_evolve_eta);
}

Sys::Sys(const Cfg &c, bool seed)
{
    memset(&x, 0, sizeof x);
    param_init(&x, c.x_dim, c.y_dim, c.n_actions); // seeds from the clock
    seed_rng(c.seed);
    if (seed) param_set_random_state(&x, (int) c.seed);
    apply_cfg(&x, c);
    xcsf_init(&x);
}
Sys::Sys(int x_dim, int y_dim, int n_actions)
{
    memset(&x, 0, sizeof x);
    param_init(&x, x_dim, y_dim, n_actions); // seeds from the clock
    seed_rng(1);
    param_set_pop_init(&x, false);
    xcsf_init(&x);
}
Sys::~Sys()
{
    xcsf_free(&x);
    param_free(&x);
}

Data::Data(int n, int x_dim, int y_dim)
    : x((size_t) n * (size_t) x_dim), y((size_t) n * (size_t) y_dim)
{
    in.x = x.data();
    in.y = y.data();
    in.x_dim = x_dim;
    in.y_dim = y_dim;
    in.n_samples = n;
}
std::vector<double> gen_x(Src &s, const Cfg &c)
{
    std::vector<double> v((size_t) c.x_dim);
    const bool grid = s.chance(1, 3);
    for (double &e : v) {
        if (grid) e = c.c_min + (c.c_max - c.c_min) * s.range(0, 4) / 4.0;
        else e = s.real(c.c_min, c.c_max);
    }
    return v;
}
std::vector<double> gen_y(Src &s, const Cfg &c)
{
    std::vector<double> v((size_t) c.y_dim);
    if (c.loss == LOSS_ONEHOT || c.loss == LOSS_LOG || c.loss == LOSS_BINARY_LOG) {
        v[s.below(v.size())] = 1;
        return v;
    }
    for (double &e : v) e = s.chance(1, 4) ? (double) s.range(-1, 1) : s.uniform(-1, 1);
    return v;
}
std::unique_ptr<Data> gen_data(Src &s, const Cfg &c, int n)
{
    std::unique_ptr<Data> d(new Data(n, c.x_dim, c.y_dim));
    const int kind = (int) s.below(4);
    for (int i = 0; i < n; ++i) {
        std::vector<double> x = gen_x(s, c);
        memcpy(d->xrow(i), x.data(), sizeof(double) * x.size());
        if (c.loss == LOSS_ONEHOT || c.loss == LOSS_LOG || c.loss == LOSS_BINARY_LOG) {
            std::vector<double> y = gen_y(s, c);
            memcpy(d->yrow(i), y.data(), sizeof(double) * y.size());
            continue;
        }
        for (int j = 0; j < c.y_dim; ++j) {
            double y = 0;
            switch (kind) {
                case 0: y = 0.5; break;
                case 1:
                    for (double e : x) y += (j + 1) * e;
                    break;
                case 2: y = sin(3 * x[0]) * (j + 1); break;
                default: y = s.uniform(-1, 1); break;
            }
            d->yrow(i)[j] = y;
        }
    }
    return d;
}

// ------------------------------------------------------------------ snapshots
static void add(Snap &o, const char *n, double v) { o.push_back({n, -1, v}); }
static void addv(Snap &o, const char *n, const double *v, int k)
{
    if (v)
        for (int i = 0; i < k; ++i) o.push_back({n, i, v[i]});
}
static void addi(Snap &o, const char *n, const int *v, int k)
{
    if (v)
        for (int i = 0; i < k; ++i) o.push_back({n, i, (double) v[i]});
}
static void layer_into(Snap &o, const Layer *l, int what)
{
    add(o, "layer.type", l->type);
    add(o, "layer.options", l->options);
    add(o, "layer.n_inputs", l->n_inputs);
    add(o, "layer.n_outputs", l->n_outputs);
    add(o, "layer.max_outputs", l->max_outputs);
    add(o, "layer.max_neuron_grow", l->max_neuron_grow);
    add(o, "layer.function", l->function);
    if (l->type == LSTM) add(o, "layer.recurrent_function", l->recurrent_function);
    add(o, "layer.momentum", l->momentum);
    add(o, "layer.decay", l->decay);
    add(o, "layer.scale", l->scale);
    add(o, "layer.probability", l->probability);
    add(o, "layer.height", l->height);
    add(o, "layer.width", l->width);
    add(o, "layer.channels", l->channels);
    add(o, "layer.pad", l->pad);
    add(o, "layer.size", l->size);
    add(o, "layer.stride", l->stride);
    add(o, "layer.n_filters", l->n_filters);
    add(o, "layer.out_w", l->out_w);
    add(o, "layer.out_h", l->out_h);
    add(o, "layer.out_c", l->out_c);
    if (l->type == CONNECTED || l->type == CONVOLUTIONAL) {
        add(o, "layer.eta", l->eta);
        add(o, "layer.eta_min", l->eta_min);
        add(o, "layer.eta_max", l->eta_max);
        add(o, "layer.n_weights", l->n_weights);
        add(o, "layer.n_biases", l->n_biases);
        add(o, "layer.n_active", l->n_active);
        addv(o, "layer.weights", l->weights, l->n_weights);
        addv(o, "layer.biases", l->biases, l->n_biases);
        for (int i = 0; i < l->n_weights; ++i)
            o.push_back({"layer.weight_active", i, (double) l->weight_active[i]});
        if (what & S_UPD) {
            addv(o, "layer.weight_updates", l->weight_updates, l->n_weights);
            addv(o, "layer.bias_updates", l->bias_updates, l->n_biases);
        }
    }
    if (l->type == RECURRENT || l->type == LSTM) {
        add(o, "layer.eta", l->eta);
        add(o, "layer.n_active", l->n_active);
    }
    if ((what & S_MU) && l->mu) addv(o, "layer.mu", l->mu, 6);
    if (what & S_TRANS) {
        addv(o, "layer.output", l->output, l->n_outputs);
        if (l->type == RECURRENT || l->type == LSTM) {
            addv(o, "layer.prev_state", l->prev_state, l->n_outputs);
        }
        if (l->type == LSTM) {
            addv(o, "layer.cell", l->cell, l->n_outputs);
            addv(o, "layer.h", l->h, l->n_outputs);
            addv(o, "layer.c", l->c, l->n_outputs);
        }
    }
    if (l->type == RECURRENT)
        for (const Layer *q : {l->input_layer, l->self_layer, l->output_layer}) layer_into(o, q, what & ~S_MU & ~S_TRANS);
    if (l->type == LSTM)
        for (const Layer *q : {l->uf, l->ui, l->ug, l->uo, l->wf, l->wi, l->wg, l->wo})
            layer_into(o, q, what & ~S_MU & ~S_TRANS);
}
Snap snap_layer(const Layer *l, int what, const char *)
{
    Snap o;
    layer_into(o, l, what);
    return o;
}
static void net_into(Snap &o, const Net *n, int what)
{
    add(o, "net.n_layers", n->n_layers);
    add(o, "net.n_inputs", n->n_inputs);
    add(o, "net.n_outputs", n->n_outputs);
    for (const Llist *i = n->tail; i; i = i->prev) layer_into(o, i->layer, what);
}
Snap snap_net(const Net *n, int what)
{
    Snap o;
    net_into(o, n, what);
    return o;
}
static void graph_into(Snap &o, const Graph *g, int what)
{
    add(o, "graph.n", g->n);
    add(o, "graph.t", g->t);
    add(o, "graph.klen", g->klen);
    add(o, "graph.max_k", g->max_k);
    add(o, "graph.max_t", g->max_t);
    add(o, "graph.n_inputs", g->n_inputs);
    add(o, "graph.evolve_cycles", g->evolve_cycles);
    addi(o, "graph.function", g->function, g->n);
    addi(o, "graph.connectivity", g->connectivity, g->klen);
    addv(o, "graph.initial_state", g->initial_state, g->n);
    if (what & S_TRANS) addv(o, "graph.state", g->state, g->n);
    if (what & S_MU) addv(o, "graph.mu", g->mu, 3);
}
const Net *cond_net(const XCSF *x, const Cl *c)
{
    if (x->cond->type == COND_TYPE_NEURAL) return &((CondNeural *) c->cond)->net;
    if (x->cond->type == RULE_TYPE_NEURAL) return &((RuleNeural *) c->cond)->net;
    return nullptr;
}
const Net *pred_net(const XCSF *x, const Cl *c)
{
    return x->pred->type == PRED_TYPE_NEURAL ? &((PredNeural *) c->pred)->net : nullptr;
}
const Net *act_net(const XCSF *x, const Cl *c)
{
    const int t = x->cond->type;
    return t != RULE_TYPE_DGP && t != RULE_TYPE_NEURAL && x->act->type == ACT_TYPE_NEURAL ?
        &((ActNeural *) c->act)->net :
        nullptr;
}
Snap snap_cl(const XCSF *x, const Cl *c, int what)
{
    Snap o;
    if (what & S_STATS) {
        add(o, "err", c->err);
        add(o, "fit", c->fit);
        add(o, "num", c->num);
        add(o, "exp", c->exp);
        add(o, "size", c->size);
        add(o, "time", c->time);
    }
    if (what & S_MATCH) {
        add(o, "age", c->age);
        add(o, "mtotal", c->mtotal);
    }
    if (what & S_PREDVAL) addv(o, "prediction", c->prediction, x->y_dim);
    if (what & S_COND) {
        switch (x->cond->type) {
            case COND_TYPE_HYPERRECTANGLE_CSR:
            case COND_TYPE_HYPERRECTANGLE_UBR: {
                const CondRectangle *r = (CondRectangle *) c->cond;
                addv(o, "cond.b1", r->b1, x->x_dim);
                addv(o, "cond.b2", r->b2, x->x_dim);
                if (what & S_MU) addv(o, "cond.mu", r->mu, 1);
                break;
            }
            case COND_TYPE_HYPERELLIPSOID: {
                const CondEllipsoid *r = (CondEllipsoid *) c->cond;
                addv(o, "cond.center", r->center, x->x_dim);
                addv(o, "cond.spread", r->spread, x->x_dim);
                if (what & S_MU) addv(o, "cond.mu", r->mu, 1);
                break;
            }
            case COND_TYPE_TERNARY: {
                const CondTernary *r = (CondTernary *) c->cond;
                add(o, "cond.length", r->length);
                for (int i = 0; i < r->length; ++i) o.push_back({"cond.string", i, (double) r->string[i]});
                if (what & S_MU) addv(o, "cond.mu", r->mu, 1);
                break;
            }
            case COND_TYPE_GP: {
                const GPTree *g = &((CondGP *) c->cond)->gp;
                add(o, "tree.len", g->len);
                addi(o, "tree", g->tree, g->len);
                if (what & S_MU) addv(o, "tree.mu", g->mu, 1);
                break;
            }
            case COND_TYPE_DGP: graph_into(o, &((CondDGP *) c->cond)->dgp, what); break;
            case RULE_TYPE_DGP:
                add(o, "rule.n_outputs", ((RuleDGP *) c->cond)->n_outputs);
                graph_into(o, &((RuleDGP *) c->cond)->dgp, what);
                break;
            default:
                if (const Net *n = cond_net(x, c)) net_into(o, n, what);
        }
    }
    if ((what & S_ACT) && x->cond->type != RULE_TYPE_DGP && x->cond->type != RULE_TYPE_NEURAL) {
        if (const Net *n = act_net(x, c)) net_into(o, n, what);
        else {
            const ActInteger *a = (ActInteger *) c->act;
            add(o, "act.action", a->action);
            if (what & S_MU) addv(o, "act.mu", a->mu, 1);
        }
    }
    if (what & S_PRED) {
        switch (x->pred->type) {
            case PRED_TYPE_CONSTANT: addv(o, "prediction", c->prediction, x->y_dim); break;
            case PRED_TYPE_NLMS_LINEAR:
            case PRED_TYPE_NLMS_QUADRATIC: {
                const PredNLMS *p = (PredNLMS *) c->pred;
                add(o, "nlms.n", p->n);
                add(o, "nlms.n_weights", p->n_weights);
                add(o, "nlms.eta", p->eta);
                addv(o, "nlms.weights", p->weights, p->n_weights);
                if (what & S_MU) addv(o, "nlms.mu", p->mu, 1);
                break;
            }
            case PRED_TYPE_RLS_LINEAR:
            case PRED_TYPE_RLS_QUADRATIC: {
                const PredRLS *p = (PredRLS *) c->pred;
                add(o, "rls.n", p->n);
                add(o, "rls.n_weights", p->n_weights);
                addv(o, "rls.weights", p->weights, p->n_weights);
                addv(o, "rls.matrix", p->matrix, p->n * p->n);
                break;
            }
            default:
                if (const Net *n = pred_net(x, c)) net_into(o, n, what);
        }
    }
    return o;
}
static void largs_into(Snap &o, const ArgsLayer *a)
{
    for (; a; a = a->next) {
        add(o, "largs.type", a->type);
        add(o, "largs.n_inputs", a->n_inputs);
        add(o, "largs.n_init", a->n_init);
        add(o, "largs.n_max", a->n_max);
        add(o, "largs.max_neuron_grow", a->max_neuron_grow);
        add(o, "largs.function", a->function);
        add(o, "largs.recurrent_function", a->recurrent_function);
        add(o, "largs.height", a->height);
        add(o, "largs.width", a->width);
        add(o, "largs.channels", a->channels);
        add(o, "largs.size", a->size);
        add(o, "largs.stride", a->stride);
        add(o, "largs.pad", a->pad);
        add(o, "largs.eta", a->eta);
        add(o, "largs.eta_min", a->eta_min);
        add(o, "largs.momentum", a->momentum);
        add(o, "largs.decay", a->decay);
        add(o, "largs.probability", a->probability);
        add(o, "largs.scale", a->scale);
        add(o, "largs.evolve_weights", a->evolve_weights);
        add(o, "largs.evolve_neurons", a->evolve_neurons);
        add(o, "largs.evolve_functions", a->evolve_functions);
        add(o, "largs.evolve_eta", a->evolve_eta);
        add(o, "largs.evolve_connect", a->evolve_connect);
        add(o, "largs.sgd_weights", a->sgd_weights);
    }
}
Snap snap_params(const XCSF *x)
{
    Snap o;
#define P(f) add(o, #f, x->f)
    P(time); P(error); P(mset_size); P(aset_size); P(mfrac); P(explore);
    P(x_dim); P(y_dim); P(n_actions); P(pa_size); P(GAMMA); P(P_EXPLORE); P(ALPHA); P(BETA); P(DELTA);
    P(E0); P(INIT_ERROR); P(INIT_FITNESS); P(NU); P(HUBER_DELTA); P(OMP_NUM_THREADS);
    P(MAX_TRIALS); P(PERF_TRIALS); P(POP_SIZE); P(LOSS_FUNC); P(TELETRANSPORTATION);
    P(THETA_DEL); P(M_PROBATION); P(THETA_SUB); P(RANDOM_STATE); P(POP_INIT);
    P(SET_SUBSUMPTION); P(STATEFUL); P(COMPACTION);
    P(ea->subsumption); P(ea->select_size); P(ea->err_reduc); P(ea->fit_reduc);
    P(ea->p_crossover); P(ea->theta); P(ea->lambda); P(ea->select_type); P(ea->pred_reset);
    P(act->type); P(cond->type); P(cond->eta); P(cond->max); P(cond->min); P(cond->p_dontcare);
    P(cond->spread_min); P(cond->bits); P(pred->type); P(pred->evolve_eta); P(pred->eta);
    P(pred->eta_min); P(pred->lambda); P(pred->scale_factor); P(pred->x0);
    P(cond->targs->max); P(cond->targs->min); P(cond->targs->n_inputs);
    P(cond->targs->n_constants); P(cond->targs->init_depth); P(cond->targs->max_len);
    P(cond->dargs->evolve_cycles); P(cond->dargs->max_k); P(cond->dargs->max_t);
    P(cond->dargs->n); P(cond->dargs->n_inputs);
#undef P
    addv(o, "cond->targs->constants", x->cond->targs->constants, x->cond->targs->n_constants);
    largs_into(o, x->cond->largs);
    largs_into(o, x->pred->largs);
    largs_into(o, x->act->largs);
    return o;
}
std::string diff(const Snap &a, const Snap &b, double tol)
{
    for (size_t i = 0; i < a.size() && i < b.size(); ++i) {
        if (strcmp(a[i].name, b[i].name) || a[i].idx != b[i].idx)
            return fmt("structure differs at %s[%d] / %s[%d]", a[i].name, a[i].idx, b[i].name,
                       b[i].idx);
        if (tol > 0 ? !close(a[i].v, b[i].v, tol, tol) : !same(a[i].v, b[i].v))
            return fmt("%s[%d]: %.17g vs %.17g", a[i].name, a[i].idx, a[i].v, b[i].v);
    }
    if (a.size() != b.size()) return fmt("different number of fields %zu vs %zu", a.size(), b.size());
    return "";
}
std::vector<const Cl *> rules(const Set &s)
{
    std::vector<const Cl *> v;
    for (const Clist *i = s.list; i; i = i->next) {
        v.push_back(i->cl);
        if (v.size() > 10000000) pbt::fail("cyclic-set", "set list does not end");
    }
    return v;
}
std::vector<Snap> snap_set(const XCSF *x, const Set &s, int what)
{
    std::vector<Snap> v;
    for (const Cl *c : rules(s)) v.push_back(snap_cl(x, c, what));
    return v;
}
std::string diff_sets(const std::vector<Snap> &a, const std::vector<Snap> &b, double tol)
{
    if (a.size() != b.size()) return fmt("%zu rules vs %zu rules", a.size(), b.size());
    for (size_t i = 0; i < a.size(); ++i) {
        std::string d = diff(a[i], b[i], tol);
        if (!d.empty()) return fmt("rule %zu: %s", i, d.c_str());
    }
    return "";
}
std::vector<const Layer *> net_layers(const Net *n)
{
    std::vector<const Layer *> v;
    for (const Llist *i = n->tail; i; i = i->prev) v.push_back(i->layer);
    return v;
}

void check_population(const XCSF *x, bool limit)
{
    std::vector<const Cl *> v = rules(x->pset);
    std::set<const void *> seen;
    long num = 0;
    for (const Cl *c : v) {
        CHECK(seen.insert(c).second, "duplicate-rule", "a rule occurs twice in the population");
        CHECK(c->num >= 1, "numerosity", "rule with numerosity %d", c->num);
        CHECK(std::isfinite(c->err) && c->err >= 0, "err-range", "rule error %g", c->err);
        CHECK(std::isfinite(c->fit) && c->fit >= 0, "fit-range", "rule fitness %g", c->fit);
        CHECK(std::isfinite(c->size) && c->size >= 0, "size-range", "set size estimate %g", c->size);
        CHECK(c->exp >= 0, "exp-range", "experience %d", c->exp);
        CHECK(c->mtotal >= 0 && c->mtotal <= c->age, "match-counters", "mtotal %d age %d",
              c->mtotal, c->age);
        CHECK(c->time >= 0 && c->time <= x->time, "time-stamp", "time stamp %d, clock %d", c->time,
              x->time);
        num += c->num;
    }
    CHECK((long) v.size() == x->pset.size, "size-count", "pset.size=%d but %zu rules", x->pset.size,
          v.size());
    CHECK(num == x->pset.num, "num-count", "pset.num=%d but numerosities sum to %ld", x->pset.num,
          num);
    if (limit)
        CHECK(num <= x->POP_SIZE, "over-limit", "total numerosity %ld exceeds limit %d", num,
              x->POP_SIZE);
}

double reward_of(const Data &d, int row, int action)
{
    const double y = d.y[(size_t) row * (size_t) d.in.y_dim];
    return (row % 3 == action % 3 ? 1 : 0) + 0.25 * y * (1 + action);
}
void train(XCSF *x, Data &d, Src &s, int n, const std::function<void(const char *)> &step)
{
    if (x->n_actions == 1) {
        const bool shuffle = s.flip();
        const bool test = s.chance(1, 4);
        for (int i = 0; i < n; ++i) {
            xcs_supervised_fit(x, &d.in, test ? &d.in : nullptr, shuffle, i, 1);
            if (step) step("trial");
        }
        return;
    }
    int i = 0;
    while (i < n) {
        if (s.chance(1, 2)) {
            const int row = s.range(0, d.in.n_samples - 1);
            const int a = s.range(0, x->n_actions - 1);
            xcs_rl_fit(x, d.xrow(row), a, reward_of(d, row, a));
            ++i;
            if (step) step("rl_fit");
        } else {
            const int len = s.range(1, 6);
            const bool explore = s.chance(3, 4);
            const bool finish = s.chance(3, 4);
            param_set_explore(x, explore);
            xcs_rl_init_trial(x);
            for (int k = 0; k < len; ++k) {
                const int row = s.range(0, d.in.n_samples - 1);
                xcs_rl_init_step(x);
                const int a = xcs_rl_decision(x, d.xrow(row));
                if (step) step("decision");
                const double r = reward_of(d, row, a);
                const bool done = finish && k == len - 1;
                xcs_rl_update(x, d.xrow(row), a, r, done);
                if (step) step("update");
                xcs_rl_error(x, a, r, done, 1);
                xcs_rl_end_step(x, d.xrow(row), a, r);
                ++i;
            }
            xcs_rl_end_trial(x);
            if (step) step("end_trial");
        }
    }
}

void add_rules(XCSF *x, const Cfg &g, Src &s, int n)
{
    if (g.crowd > 0 && x->pset.size < g.crowd && x->pset.num + n + g.crowd <= x->POP_SIZE) n += g.crowd;
    for (int i = 0; i < n; ++i) {
        Cl *c = (Cl *) malloc(sizeof(Cl));
        cl_init(x, c, s.range(1, 9), x->time);
        if (s.flip()) cl_rand(x, c);
        else cl_cover(x, c, gen_x(s, g).data(), s.range(0, g.n_actions - 1));
        clset_add(&x->pset, c);
    }
}
void scramble(XCSF *x, Src &s, int max_num)
{
    x->pset.num = 0;
    const bool old = s.chance(1, 6); // the numbers of a long history
    for (Clist *i = x->pset.list; i; i = i->next) {
        Cl *c = i->cl;
        c->err = s.chance(1, 3) ? x->E0 * s.real(0.5, 1.5) : s.uniform(0, 2 * x->E0 + 0.5);
        if (s.chance(1, 12)) c->err = s.pick(std::vector<double>{x->E0, nextafter(x->E0, 0), nextafter(x->E0, 10), x->E0 * (1 - 1e-9), 0});
        c->fit = s.uniform(1e-4, 1);
        c->num = s.range(1, max_num);
        c->exp = s.chance(1, 2) ? s.range(0, 60) : x->THETA_SUB + s.range(-1, 1) > 0 ? x->THETA_SUB + s.range(-1, 1) : 0;
        if (c->exp < 0) c->exp = 0;
        c->size = s.uniform(0.1, 30);
        c->time = s.range(0, x->time);
        c->age = s.range(0, 50);
        c->mtotal = s.range(0, c->age);
        if (old) {
            c->exp = s.range(0, 3000000);
            c->size = s.uniform(1, 20000);
            c->age = s.range(0, 5000000);
            c->mtotal = s.range(0, c->age);
            if (s.flip()) c->err *= 1000;
        }
        x->pset.num += c->num;
    }
}
Set make_set(const std::vector<const Cl *> &v)
{
    Set r;
    clset_init(&r);
    for (size_t i = v.size(); i > 0; --i) clset_add(&r, (Cl *) v[i - 1]);
    return r;
}

NetBox::NetBox(const std::vector<ArgsLayer> &v)
{
    ArgsLayer *a = make_largs(v);
    neural_create(&n, a);
    layer_args_free(&a);
}
NetBox::~NetBox()
{
    neural_free(&n);
}
std::vector<std::pair<std::string, Layer *>> dense_parts(Layer *l)
{
    switch (l->type) {
        case CONNECTED: return {{"connected", l}};
        case CONVOLUTIONAL: return {{"conv", l}};
        case RECURRENT: return {{"recurrent.input", l->input_layer}, {"recurrent.self", l->self_layer}, {"recurrent.output", l->output_layer}};
        case LSTM:
            return {{"lstm.uf", l->uf}, {"lstm.ui", l->ui}, {"lstm.ug", l->ug}, {"lstm.uo", l->uo},
                    {"lstm.wf", l->wf}, {"lstm.wi", l->wi}, {"lstm.wg", l->wg}, {"lstm.wo", l->wo}};
        default: return {};
    }
}
void fill_weights(Net *n, uint64_t seed, double scale, double prune)
{
    Src r(seed);
    for (const Layer *cl : net_layers(n)) {
        Layer *l = const_cast<Layer *>(cl);
        for (auto &p : dense_parts(l)) {
            Layer *q = p.second;
            q->n_active = 0;
            for (int i = 0; i < q->n_weights; ++i) {
                const bool on = prune <= 0 || r.unit() >= prune;
                q->weight_active[i] = on;
                q->weights[i] = on ? r.uniform(-scale, scale) : 0;
                q->n_active += on;
            }
            for (int i = 0; i < q->n_biases; ++i) q->biases[i] = r.uniform(-scale, scale);
        }
        if (l->type == RECURRENT || l->type == LSTM) {
            l->n_active = 0;
            for (auto &p : dense_parts(l)) l->n_active += p.second->n_active;
        }
    }
}
