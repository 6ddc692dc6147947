// C16: genetic operators keep rules legal, recombine position by position and
// report changes truthfully.
#include "ref.hpp"
using namespace pbt;

// genes of a rule: (value) by position
static std::vector<double> genes(const Cfg &g, const Cl *c)
{
    std::vector<double> v;
    if (g.cond == COND_TYPE_HYPERRECTANGLE_CSR || g.cond == COND_TYPE_HYPERRECTANGLE_UBR) {
        const CondRectangle *p = (const CondRectangle *) c->cond;
        v.insert(v.end(), p->b1, p->b1 + g.x_dim);
        v.insert(v.end(), p->b2, p->b2 + g.x_dim);
    } else if (g.cond == COND_TYPE_HYPERELLIPSOID) {
        const CondEllipsoid *p = (const CondEllipsoid *) c->cond;
        v.insert(v.end(), p->center, p->center + g.x_dim);
        v.insert(v.end(), p->spread, p->spread + g.x_dim);
    } else if (g.cond == COND_TYPE_TERNARY) {
        const CondTernary *p = (const CondTernary *) c->cond;
        v.insert(v.end(), p->string, p->string + p->length);
    }
    return v;
}
static int action_of(const Cfg &g, const Cl *c)
{
    return g.act == ACT_TYPE_INTEGER && g.n_actions > 1 ? ((const ActInteger *) c->act)->action : 0;
}
// mutated = the rule has just been mutated, so every value was brought in range
static void legal(const Cfg &g, const Cl *c, bool mutated)
{
    const int d = g.x_dim;
    const std::vector<double> v = genes(g, c);
    for (double e : v) CHECK(std::isfinite(e), "finite", "a gene is %g", e);
    if (g.cond == COND_TYPE_TERNARY) {
        CHECK((int) v.size() == d * g.bits, "length", "ternary length %zu for %d inputs of %d bits", v.size(), d, g.bits);
        for (double e : v) CHECK(e == '0' || e == '1' || e == '#', "symbol", "illegal symbol %d", (int) e);
    } else if (!v.empty()) {
        for (int i = 0; i < d; ++i) {
            const double a = v[(size_t) i], b = v[(size_t) (d + i)];
            if (mutated) CHECK(a >= g.c_min && a <= g.c_max, "range", "centre or bound %g outside [%g,%g] after mutation", a, g.c_min, g.c_max);
            if (g.cond == COND_TYPE_HYPERRECTANGLE_UBR) {
                if (mutated) CHECK(b >= g.c_min && b <= g.c_max, "range", "bound %g outside [%g,%g] after mutation", b, g.c_min, g.c_max);
            } else
                CHECK(b > 0, "spread", "spread %g is not positive", b);
        }
    }
    const int a = action_of(g, c);
    CHECK(a >= 0 && a < std::max(1, g.n_actions), "action", "action %d of %d", a, g.n_actions);
}
// graphs and networks have no crossover
static void asexual(Src &s, Case &c)
{
    CfgOpt o;
    o.conds = {COND_TYPE_DGP, COND_TYPE_NEURAL, RULE_TYPE_DGP, RULE_TYPE_NEURAL};
    Cfg g = gen_cfg(s, o);
    g.p_cross = 1;
    Sys x(g);
    c.desc << g.str() << " crossover of " << condition_type_as_string(g.cond);
    Cl *a = (Cl *) malloc(sizeof(Cl)), *b = (Cl *) malloc(sizeof(Cl));
    cl_init(x, a, 1, 0);
    cl_init(x, b, 1, 0);
    cl_cover(x, a, gen_x(s, g).data(), s.range(0, g.n_actions - 1));
    cl_rand(x, b);
    const int what = S_STATS | S_COND | S_ACT | S_PRED | S_MU;
    const Snap sa = snap_cl(x, a, what), sb = snap_cl(x, b, what);
    for (int i = 0; i < 5; ++i) {
        const bool rep = cl_crossover(x, a, b);
        const std::string d = diff(sa, snap_cl(x, a, what)) + diff(sb, snap_cl(x, b, what));
        CHECK(d.empty(), "asexual", "crossover of a representation without one changed a rule: %s", d.c_str());
        CHECK(!rep, "asexual", "crossover of a representation without one reports a change");
    }
    cl_free(x, a);
    cl_free(x, b);
    c.count("without crossover");
    c.nontrivial = true;
}
static void run(Src &s, Case &c)
{
    if (s.chance(1, 30)) return asexual(s, c);
    CfgOpt o;
    o.max_x = 6;
    o.conds = {COND_TYPE_HYPERRECTANGLE_CSR, COND_TYPE_HYPERRECTANGLE_UBR, COND_TYPE_TERNARY, COND_TYPE_HYPERELLIPSOID, COND_TYPE_DUMMY};
    o.preds = {PRED_TYPE_CONSTANT, PRED_TYPE_NLMS_LINEAR, PRED_TYPE_NLMS_QUADRATIC, PRED_TYPE_RLS_LINEAR};
    o.act_neural = false;
    o.pop_init = false;
    o.max_actions = 8;
    Cfg g = gen_cfg(s, o);
    if (s.flip()) g.spread_min = std::max(g.spread_min, 1e-3);
    if (s.chance(1, 4)) g.p_cross = 0;
    else if (s.flip()) g.p_cross = 1;
    Sys x(g);
    c.desc << g.str();
    const int n = 3;
    std::vector<Cl *> r;
    std::vector<double> bmin; // smallest spread of rule by initialisation
    for (int i = 0; i < n; ++i) {
        Cl *q = (Cl *) malloc(sizeof(Cl));
        cl_init(x, q, 1, 0);
        if (s.flip()) {
            cl_rand(x, q);
            if (g.cond != COND_TYPE_TERNARY && g.cond != COND_TYPE_DUMMY) legal(g, q, true);
        } else {
            const std::vector<double> v = gen_x(s, g);
            const int a = s.range(0, g.n_actions - 1);
            cl_cover(x, q, v.data(), a);
            if (g.n_actions > 1) CHECK(action_of(g, q) == a, "cover-action", "covering for %d gave action %d", a, action_of(g, q));
            if (g.cond == COND_TYPE_HYPERRECTANGLE_CSR || g.cond == COND_TYPE_HYPERELLIPSOID) {
                const std::vector<double> w = genes(g, q);
                for (int k = 0; k < g.x_dim; ++k)
                    CHECK(w[(size_t) k] == v[(size_t) k], "cover-centre", "covering rule centred at %g, input %g", w[(size_t) k], v[(size_t) k]);
            }
        }
        if (g.cond == COND_TYPE_HYPERRECTANGLE_CSR || g.cond == COND_TYPE_HYPERELLIPSOID) {
            const std::vector<double> w = genes(g, q);
            const double hi = std::max(g.spread_min, fabs(g.c_max - g.c_min));
            const double lo = std::min(g.spread_min, fabs(g.c_max - g.c_min));
            for (int k = 0; k < g.x_dim; ++k) {
                const double e = w[(size_t) (g.x_dim + k)];
                CHECK(e >= lo * (1 - 1e-12) && e <= hi * (1 + 1e-12), "spread-init", "new rule has spread %g outside [%g,%g]", e, lo, hi);
            }
        }
        r.push_back(q);
    }
    bool changed = false, crossed = false;
    const int steps = s.range(2, 12);
    for (int t = 0; t < steps; ++t) {
        const int i = s.range(0, n - 1), j = (i + 1 + s.range(0, n - 2)) % n;
        Cl *a = r[(size_t) i], *b = r[(size_t) j];
        std::vector<Snap> before;
        for (Cl *q : r) before.push_back(snap_cl(x, q, S_RULE));
        const Snap ca = snap_cl(x, a, S_COND), cb = snap_cl(x, b, S_COND);
        const Snap pa_ = snap_cl(x, a, S_PRED | S_STATS), pb_ = snap_cl(x, b, S_PRED | S_STATS);
        const std::vector<double> ga = genes(g, a), gb = genes(g, b);
        const int aa = action_of(g, a), ab = action_of(g, b);
        int touched1 = i, touched2 = i;
        switch (s.pickw({4, 4, 2, 1})) {
            case 0: {
                const bool rep = cl_mutate(x, a);
                const std::string dc = diff(ca, snap_cl(x, a, S_COND)), ds = diff(snap_cl(x, a, S_PRED | S_STATS), pa_);
                const bool ch = !dc.empty() || !ds.empty() || action_of(g, a) != aa;
                if (ch) CHECK(rep, "silent", "mutation changed the rule (%s%s) but reports no change", dc.c_str(), ds.c_str());
                else CHECK(!rep, "false-change", "mutation reports a change but the rule is the same");
                legal(g, a, true);
                changed = changed || ch;
                c.count(ch ? "mutated" : "mutation without effect");
                break;
            }
            case 1: {
                const bool rep = cl_crossover(x, a, b);
                touched2 = j;
                const std::vector<double> na = genes(g, a), nb = genes(g, b);
                CHECK(na.size() == ga.size() && nb.size() == gb.size(), "length", "crossover changed the number of genes");
                bool ch = action_of(g, a) != aa || action_of(g, b) != ab;
                for (size_t k = 0; k < na.size(); ++k) {
                    const bool keep = na[k] == ga[k] && nb[k] == gb[k], swap = na[k] == gb[k] && nb[k] == ga[k];
                    CHECK(keep || swap, "exchange", "position %zu: parents %g and %g, offspring %g and %g", k, ga[k], gb[k], na[k], nb[k]);
                    ch = ch || !keep;
                    if (swap && !keep) crossed = true;
                }
                CHECK(diff(pa_, snap_cl(x, a, S_PRED | S_STATS)).empty() && diff(pb_, snap_cl(x, b, S_PRED | S_STATS)).empty(),
                      "crossover-pred", "crossover of conditions changed a linear or constant prediction or statistics");
                if (ch) CHECK(rep, "silent", "crossover changed the rules but reports no change");
                if (g.p_cross == 0 || g.cond == COND_TYPE_DUMMY) CHECK(!rep && !ch, "p0", "crossover acts although its probability is zero");
                legal(g, a, false);
                legal(g, b, false);
                c.count(ch ? "crossed" : "crossover without effect");
                break;
            }
            case 2: {
                Cl *q = (Cl *) malloc(sizeof(Cl));
                cl_init(x, q, 1, 0);
                cl_copy(x, q, a);
                // with prediction reset copies start a fresh predictor
                const int what = S_COND | S_ACT | (g.pred_reset ? 0 : S_PRED | S_MU);
                std::string d = diff(snap_cl(x, a, what), snap_cl(x, q, what));
                CHECK(d.empty(), "copy", "a copied rule differs: %s", d.c_str());
                // independence: wear out the copy, the original must not follow
                for (int k = 0; k < 3; ++k) cl_mutate(x, q);
                std::vector<double> v = gen_x(s, g), y = gen_y(s, g);
                cl_predict(x, q, v.data());
                cl_update(x, q, v.data(), y.data(), 1, true);
                d = diff(before[(size_t) i], snap_cl(x, a, S_RULE));
                CHECK(d.empty(), "copy-shared", "changing a copy changed the original: %s", d.c_str());
                cl_free(x, q);
                d = diff(before[(size_t) i], snap_cl(x, a, S_RULE));
                CHECK(d.empty(), "copy-freed", "releasing a copy changed the original: %s", d.c_str());
                break;
            }
            default: {
                const std::vector<double> v = gen_x(s, g), y = gen_y(s, g);
                cond_update(x, a, v.data(), y.data());
                const std::vector<double> na = genes(g, a);
                const bool moves = g.cond == COND_TYPE_HYPERRECTANGLE_CSR || g.cond == COND_TYPE_HYPERELLIPSOID;
                for (size_t k = 0; k < na.size(); ++k) {
                    double e = ga[k];
                    if (moves && (int) k < g.x_dim) e += g.c_eta * (v[k] - e);
                    CHECK(moves && (int) k < g.x_dim ? close(na[k], e) : na[k] == e, "cond-update", "condition update moved gene %zu from %g to %g, expected %g", k, ga[k], na[k], e);
                }
            }
        }
        for (int k = 0; k < n; ++k)
            if (k != touched1 && k != touched2) {
                const std::string d = diff(before[(size_t) k], snap_cl(x, r[(size_t) k], S_RULE));
                CHECK(d.empty(), "bystander", "an operator on rule %d changed rule %d: %s", i, k, d.c_str());
            }
    }
    for (Cl *q : r) cl_free(x, q);
    c.count(condition_type_as_string(g.cond));
    c.nontrivial = changed && (crossed || g.p_cross == 0 || g.cond == COND_TYPE_DUMMY);
}
const Property pbt::property = {
    "C16",
    "a case is three rules (random or covering) and up to twelve operators (mutation, crossover, copy, condition update) checked one by one; non-trivial: a mutation changed something and, where crossover is possible, a value was exchanged",
    run, 60000, 2500000, 20};
