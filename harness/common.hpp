// Shared by the property harnesses: access to the library, configuration
// generator, structural snapshots of rules.
#pragma once
#include "engine.hpp"
#include <algorithm>
#include <memory>
#include <set>
#include <string>
#include <vector>

extern "C" {
#define _Bool bool
#include "act_integer.h"
#include "act_neural.h"
#include "action.h"
#include "blas.h"
#include "cl.h"
#include "clset.h"
#include "clset_neural.h"
#include "cond_dgp.h"
#include "cond_dummy.h"
#include "cond_ellipsoid.h"
#include "cond_gp.h"
#include "cond_neural.h"
#include "cond_rectangle.h"
#include "cond_ternary.h"
#include "condition.h"
#include "config.h"
#include "dgp.h"
#include "ea.h"
#include "env.h"
#include "env_csv.h"
#include "env_maze.h"
#include "env_mux.h"
#include "gp.h"
#include "image.h"
#include "loss.h"
#include "neural.h"
#include "neural_activations.h"
#include "neural_layer.h"
#include "neural_layer_args.h"
#include "neural_layer_avgpool.h"
#include "neural_layer_connected.h"
#include "neural_layer_convolutional.h"
#include "neural_layer_dropout.h"
#include "neural_layer_lstm.h"
#include "neural_layer_maxpool.h"
#include "neural_layer_noise.h"
#include "neural_layer_recurrent.h"
#include "neural_layer_softmax.h"
#include "neural_layer_upsample.h"
#include "pa.h"
#include "param.h"
#include "pred_constant.h"
#include "pred_neural.h"
#include "pred_nlms.h"
#include "pred_rls.h"
#include "prediction.h"
#include "rule_dgp.h"
#include "rule_neural.h"
#include "sam.h"
#include "utils.h"
#include "xcs_rl.h"
#include "xcs_supervised.h"
#include "xcsf.h"
}

using pbt::Case;
using pbt::close;
using pbt::fmt;
using pbt::same;
using pbt::Src;

// Seed the library's generator, forgetting any cached normal deviate.
void seed_rng(uint32_t seed);

// Plain description of a configuration (can be applied any number of times).
struct Cfg {
    int crowd = 0; // rules added at once to make a large population
    uint32_t seed = 1;
    int x_dim = 1, y_dim = 1, n_actions = 1;
    int omp = 2;
    int pop_size = 20;
    bool pop_init = false;
    int max_trials = 100, perf_trials = 10;
    int loss = LOSS_MAE;
    double huber = 1;
    double e0 = 0.01, alpha = 0.1, nu = 5, beta = 0.1, delta = 0.1;
    int theta_del = 20;
    double init_fit = 0.01, init_err = 0;
    int m_prob = 10000;
    bool stateful = false, compaction = false;
    double gamma = 0.95, p_explore = 0.9;
    int tele = 50;
    bool set_sub = false;
    int theta_sub = 100;
    int sel_type = EA_SELECT_ROULETTE;
    double sel_size = 0.4, theta_ea = 50, p_cross = 0.8, err_red = 1, fit_red = 0.1;
    int lambda_ea = 2;
    bool ea_sub = false, pred_reset = false;
    int cond = COND_TYPE_HYPERRECTANGLE_CSR;
    double c_eta = 0, c_min = 0, c_max = 1, spread_min = 0.1, p_dc = 0.5;
    int bits = 1;
    double gp_min = 0, gp_max = 1;
    int gp_nc = 10, gp_depth = 3, gp_maxlen = 200;
    bool d_evolve = true;
    int d_k = 2, d_t = 5, d_n = 5;
    std::vector<ArgsLayer> cnet, pnet, anet;
    int pred = PRED_TYPE_NLMS_LINEAR;
    double p_eta = 0.1, p_eta_min = 0.00001, p_lambda = 1, p_scale = 1000, p_x0 = 1;
    bool p_evolve_eta = true;
    int act = ACT_TYPE_INTEGER;
    std::string pop_file; // initial population
    std::string str() const;
    bool rule_type() const { return cond == RULE_TYPE_DGP || cond == RULE_TYPE_NEURAL; }
    bool has_state() const; // rules carry memory between inputs
    bool stochastic() const; // dropout or noise layers
    bool neural() const
    {
        return cond == COND_TYPE_NEURAL || cond == RULE_TYPE_NEURAL || pred == PRED_TYPE_NEURAL ||
            (act == ACT_TYPE_NEURAL && n_actions > 1 && !rule_type());
    }
};

struct CfgOpt {
    std::vector<int> conds = {COND_TYPE_DUMMY,    COND_TYPE_HYPERRECTANGLE_CSR,
                              COND_TYPE_HYPERRECTANGLE_UBR, COND_TYPE_HYPERELLIPSOID,
                              COND_TYPE_NEURAL,   COND_TYPE_GP,
                              COND_TYPE_DGP,      COND_TYPE_TERNARY,
                              RULE_TYPE_DGP,      RULE_TYPE_NEURAL};
    std::vector<int> preds = {PRED_TYPE_CONSTANT,   PRED_TYPE_NLMS_LINEAR,
                              PRED_TYPE_NLMS_QUADRATIC, PRED_TYPE_RLS_LINEAR,
                              PRED_TYPE_RLS_QUADRATIC,  PRED_TYPE_NEURAL};
    bool act_neural = true;
    int mode = 2; // 0 supervised only, 1 RL only (n_actions>=2, y_dim=1), 2 either
    bool wide = true; // now and then far more than the following
    int max_x = 4, max_y = 3, max_actions = 4;
    int max_pop = 40;
    int net_level = 1; // 0: connected only, 1: + recurrent/lstm/softmax/..., 2: + images
    bool stochastic = true; // allow dropout / noise layers
    bool recurrent = true;
    bool stateful = true; // allow the STATEFUL setting with DGP
    bool pop_init = true;
    bool softmax_pred = false; // prediction networks may end in softmax
    bool rls_safe = true; // keep RLS numerically tame
};

struct NetOpt {
    int level = 1;
    bool stochastic = true, recurrent = true, sgd = true, evolve = true, softmax_out = false;
    bool images = false;
    bool safe_out = false; // output activation that can exceed one half
    int max_hidden = 2, max_neurons = 5;
    bool conv_only_safe = false;
    bool temp = false; // softmax outputs of any temperature
    bool big = false; // many filters, neurons and layers
};

std::vector<ArgsLayer> gen_net(Src &s, int n_in, int n_out, const NetOpt &o);
// allocated linked list, as the library owns it
ArgsLayer *make_largs(const std::vector<ArgsLayer> &v);
std::string net_str(const std::vector<ArgsLayer> &v);

Cfg gen_cfg(Src &s, const CfgOpt &o = CfgOpt());
void apply_cfg(XCSF *x, const Cfg &c); // after param_init
// A system owned by a scope.
struct Sys {
    XCSF x;
    explicit Sys(const Cfg &c, bool seed = true);
    // a system with all defaults (for loading into)
    Sys(int x_dim, int y_dim, int n_actions);
    ~Sys();
    Sys(const Sys &) = delete;
    Sys &operator=(const Sys &) = delete;
    operator XCSF *() { return &x; }
    XCSF *operator->() { return &x; }
};

// Data sets
struct Data {
    std::vector<double> x, y;
    Input in;
    Data(int n, int x_dim, int y_dim);
    double *xrow(int i) { return x.data() + (size_t) i * in.x_dim; }
    double *yrow(int i) { return y.data() + (size_t) i * in.y_dim; }
    Data(const Data &) = delete;
};
// rows on a coarse grid or random; y a function of x suitable for the loss
std::unique_ptr<Data> gen_data(Src &s, const Cfg &c, int n);
std::vector<double> gen_x(Src &s, const Cfg &c);
std::vector<double> gen_y(Src &s, const Cfg &c);

// ---- snapshots
struct Field {
    const char *name;
    int idx;
    double v;
};
typedef std::vector<Field> Snap;
enum {
    S_STATS = 1, // err fit num exp size time age mtotal
    S_MATCH = 2, // m, action (transient), age, mtotal
    S_COND = 4,
    S_ACT = 8,
    S_PRED = 16, // predictor parameters
    S_PREDVAL = 32, // Cl.prediction buffer
    S_TRANS = 64, // layer states, outputs, pending updates
    S_UPD = 128, // pending (momentum) updates
    S_MU = 256,
    S_RULE = S_STATS | S_COND | S_ACT | S_PRED | S_MU,
};
Snap snap_cl(const XCSF *x, const Cl *c, int what);
Snap snap_net(const Net *n, int what = S_MU);
Snap snap_layer(const Layer *l, int what, const char *pre = "");
Snap snap_params(const XCSF *x);
std::string diff(const Snap &a, const Snap &b, double tol = 0); // "" when equal
std::vector<const Cl *> rules(const Set &s);
std::vector<Snap> snap_set(const XCSF *x, const Set &s, int what);
// compare in order; "" when equal
std::string diff_sets(const std::vector<Snap> &a, const std::vector<Snap> &b, double tol = 0);
std::vector<const Layer *> net_layers(const Net *n); // input layer first
const Net *cond_net(const XCSF *x, const Cl *c); // or null
const Net *pred_net(const XCSF *x, const Cl *c);
const Net *act_net(const XCSF *x, const Cl *c);

// Basic population invariants. Throws Fail.
void check_population(const XCSF *x, bool limit = true);

// Some learning history of about n steps: supervised trials, or single-step
// and multi-step reinforcement learning. Calls step(what) after each step.
double reward_of(const Data &d, int row, int action);
void train(XCSF *x, Data &d, Src &s, int n,
           const std::function<void(const char *)> &step = nullptr);
// adds n random or covering rules to the population
void add_rules(XCSF *x, const Cfg &g, Src &s, int n);
// gives every rule arbitrary distinct statistics (and numerosity up to max_num)
void scramble(XCSF *x, Src &s, int max_num);
// list of rules as a set of its own (to be released with clset_free)
Set make_set(const std::vector<const Cl *> &v);
size_t live_bytes();

// A network of its own.
struct NetBox {
    Net n;
    explicit NetBox(const std::vector<ArgsLayer> &v);
    ~NetBox();
    NetBox(const NetBox &) = delete;
};
// trainable (dense or convolutional) parts of a layer, with names
std::vector<std::pair<std::string, Layer *>> dense_parts(Layer *l);
// sets all weights and biases to values within +-scale, pruning a share of
// the weights of layers where pruning is meaningful
void fill_weights(Net *n, uint64_t seed, double scale, double prune);
