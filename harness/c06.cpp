// C06: evolution schedule and offspring initialisation.
#include "ref.hpp"
using namespace pbt;

static std::vector<double> weights(XCSF *x, const Cl *r)
{
    std::vector<double> v;
    for (const Field &f : snap_cl(x, r, S_PRED))
        if (strstr(f.name, ".weights")) v.push_back(f.v);
    return v;
}
static void run(Src &s, Case &c)
{
    CfgOpt o;
    o.net_level = 0;
    o.max_pop = 20;
    o.pop_init = false;
    Cfg g = gen_cfg(s, o);
    g.pop_size = 5000000;
    g.theta_ea = s.chance(1, 3) ? 0 : s.real(0, 40);
    if (s.chance(1, 3)) g.p_cross = s.flip() ? 0 : 1;
    const bool fixed = g.pred == PRED_TYPE_NEURAL && s.flip(); // networks that mutation leaves alone
    if (fixed)
        for (ArgsLayer &a : g.pnet) a.evolve_weights = a.evolve_functions = a.evolve_connect = a.evolve_neurons = false, a.evolve_eta = false;
    const bool odd = s.chance(1, 5);
    Sys x(g);
    c.desc << g.str();
    if (odd) { // offspring come in pairs
        ea_param_set_lambda(x, g.lambda_ea + 1);
        g.lambda_ea += 2;
    }
    add_rules(x, g, s, s.range(1, 8));
    if (g.pred != PRED_TYPE_CONSTANT) // predictors that have learned something
        for (const Cl *r : rules(x->pset))
            for (int k = s.range(0, 3); k > 0; --k) {
                const std::vector<double> in = gen_x(s, g);
                std::vector<double> out;
                for (int i = 0; i < g.y_dim; ++i) out.push_back(s.uniform(-1, 1));
                cl_predict(x, r, in.data());
                pred_update(x, r, in.data(), out.data());
            }
    const bool late = s.chance(1, 6);
    x->time = late ? s.range(0, 20000000) : s.range(0, 60);
    scramble(x, s, late ? 5000 : 4);
    if (late) {
        c.count("late");
        if (s.flip())
            for (const Cl *r : rules(x->pset)) ((Cl *) r)->time = std::max(0, x->time - s.range(0, 60));
    }
    std::vector<const Cl *> all = rules(x->pset), m;
    for (const Cl *r : all)
        if (s.chance(2, 3)) m.push_back(r);
    const bool zero_fit = m.size() > 1 && s.chance(1, 6);
    const Cl *zero = nullptr;
    if (zero_fit) {
        zero = m[s.below(m.size())];
        ((Cl *) zero)->fit = 0;
    }
    // sometimes exactly at the threshold
    if (!m.empty() && s.chance(1, 3)) {
        const int th = s.range(0, std::min(20, x->time + 1));
        g.theta_ea = th;
        ea_param_set_theta(x, th);
        const int off = s.range(0, 2) - 1;
        for (const Cl *r : m) ((Cl *) r)->time = std::max(0, std::min(x->time, x->time + 1 - th + off));
    }
    struct B {
        double err, fit, size;
        int num, exp, time;
        Snap body;
        bool in;
    };
    std::map<const Cl *, B> pre;
    long nsum = 0;
    double tsum = 0;
    for (const Cl *r : all) {
        const bool in = std::find(m.begin(), m.end(), r) != m.end();
        pre[r] = {r->err, r->fit, r->size, r->num, r->exp, r->time, snap_cl(x, r, S_COND | S_ACT | S_PRED | S_MU | S_MATCH), in};
        if (in) nsum += r->num, tsum += (double) r->num * r->time;
    }
    const int time = x->time, total = x->pset.num;
    const double since = m.empty() ? -1 : time + 1 - tsum / (double) nsum;
    if (!m.empty() && fabs(since - g.theta_ea) < 1e-9 + 1e-14 * time && since != g.theta_ea) throw Discard();
    const bool due = !m.empty() && since >= g.theta_ea;
    const bool limit = due && s.chance(1, 4);
    if (limit) x->POP_SIZE = total + s.range(-1, g.lambda_ea - 1);
    if (x->POP_SIZE < 1) x->POP_SIZE = 1;
    Set set = make_set(m);
    clset_init(&x->kset);
    ea(x, &set);
    CHECK(x->time == time + 1, "clock", "clock went from %d to %d", time, x->time);
    check_population(x);
    std::vector<const Cl *> after = rules(x->pset);
    if (limit) {
        CHECK(x->pset.num <= x->POP_SIZE, "limit", "numerosity %d above limit %d", x->pset.num, x->POP_SIZE);
        CHECK(x->pset.num == std::min(x->POP_SIZE, total + g.lambda_ea), "limit-exact", "numerosity %d, limit %d, before %d plus %d offspring", x->pset.num, x->POP_SIZE, total, g.lambda_ea);
    } else {
        CHECK(x->pset.num == total + (due ? g.lambda_ea : 0), due ? "offspring-count" : "schedule",
              "numerosity went from %d to %d; due=%d (time since %g, threshold %g), %d offspring", total, x->pset.num, due, since, g.theta_ea, g.lambda_ea);
    }
    std::set<const Cl *> alive(after.begin(), after.end()), dead;
    for (const Cl *r : rules(x->kset)) dead.insert(r);
    int fresh = 0, grown = 0;
    for (auto &q : pre) {
        const Cl *r = q.first;
        const B &b = q.second;
        CHECK(alive.count(r) || dead.count(r), "vanished", "a rule vanished");
        CHECK(same(r->err, b.err) && same(r->fit, b.fit) && same(r->size, b.size) && r->exp == b.exp, "parent-stats", "evolution changed the statistics of an existing rule");
        const std::string df = diff(b.body, snap_cl(x, r, S_COND | S_ACT | S_PRED | S_MU | S_MATCH));
        CHECK(df.empty(), "parent-body", "evolution changed an existing rule: %s", df.c_str());
        CHECK(r->time == (due && b.in ? x->time : b.time), "stamp", "rule in set=%d due=%d has time stamp %d (was %d), clock %d", b.in, due, r->time, b.time, x->time);
        if (!limit) {
            if (!b.in) CHECK(r->num == b.num, "outsider-num", "numerosity of a rule outside the set went from %d to %d", b.num, r->num);
            CHECK(r->num >= b.num, "shrunk", "numerosity fell from %d to %d", b.num, r->num);
            grown += r->num - b.num;
        }
    }
    // new rules
    Cl *blank = (Cl *) malloc(sizeof(Cl));
    cl_init(x, blank, 1, 0);
    cl_rand(x, blank);
    struct Guard {
        XCSF *x;
        Cl *c;
        ~Guard() { cl_free(x, c); }
    } guard{x, blank};
    std::set<const Cl *> news;
    for (const std::set<const Cl *> *q : {&alive, &dead})
        for (const Cl *r : *q)
            if (!pre.count(r)) news.insert(r);
    double best_fit = -1;
    for (const Cl *r : m) best_fit = std::max(best_fit, pre[r].fit);
    for (const Cl *r : news) {
        ++fresh;
        if (alive.count(r) && !limit) CHECK(r->num == 1, "offspring-num", "new rule has numerosity %d", r->num);
        CHECK(r->exp == 0, "offspring-exp", "new rule has experience %d", r->exp);
        CHECK(r->time == x->time, "offspring-time", "new rule has time stamp %d, clock %d", r->time, x->time);
        CHECK(r->age == 0 && r->mtotal == 0, "offspring-counters", "new rule has age %d, matches %d", r->age, r->mtotal);
        // must be explained by parents from the set
        bool ok = false, size_ok = false;
        auto eq = [](double a, double b) { return close(a, b, 1e-9, 1e-12); };
        const bool det = g.sel_type == EA_SELECT_TOURNAMENT && g.sel_size >= 1; // the fittest wins
        for (const Cl *p : m) {
            const B &b = pre[p];
            if (zero == p && g.sel_type == EA_SELECT_ROULETTE) continue; // no chance of selection
            if (det && b.fit < best_fit) continue;
            if (same(r->size, b.size)) size_ok = true;
            // (numerosities may have grown while producing several offspring)
            for (int n1 = b.num; n1 <= b.num + g.lambda_ea && !ok; ++n1) {
                if (eq(r->err, g.err_red * b.err) && eq(r->fit, g.fit_red * b.fit / n1)) ok = true;
                if (g.lambda_ea == 2 && n1 > b.num + 1) break;
            }
            for (const Cl *p2 : m) {
                const B &b2 = pre[p2];
                if (zero == p2 && g.sel_type == EA_SELECT_ROULETTE) continue;
                if (det && b2.fit < best_fit) continue;
                if (!eq(r->err, g.err_red * 0.5 * (b.err + b2.err))) continue;
                const int hi = g.lambda_ea == 2 ? 0 : g.lambda_ea;
                for (int n1 = b.num; n1 <= b.num + hi && !ok; ++n1)
                    for (int n2 = b2.num; n2 <= b2.num + hi && !ok; ++n2)
                        if (eq(r->fit, g.fit_red * 0.5 * (b.fit / n1 + b2.fit / n2))) ok = true;
            }
        }
        CHECK(ok, "offspring-init", "new rule's error %.12g and fitness %.12g are not those of any parent or pair of the set (reductions %g, %g)", r->err, r->fit, g.err_red, g.fit_red);
        // without crossover a rule that enters has been changed by mutation
        // (a reset predictor differs from its parent's, whatever mutation did)
        const bool eta = g.p_evolve_eta && (g.pred == PRED_TYPE_NLMS_LINEAR || g.pred == PRED_TYPE_NLMS_QUADRATIC);
        const bool asexual = g.p_cross == 0 || g.cond == COND_TYPE_DUMMY || g.cond == COND_TYPE_DGP || g.cond == RULE_TYPE_DGP;
        if (asexual && !g.neural() && !(g.pred_reset && eta)) {
            const int what = S_COND | S_ACT | (g.pred_reset ? 0 : S_PRED);
            const Cl *parent = nullptr;
            int np = 0;
            for (const Cl *p : m)
                if (same(r->size, pre[p].size)) parent = p, ++np;
            if (np == 1) {
                CHECK(!diff(snap_cl(x, r, what), snap_cl(x, parent, what)).empty(), "unmodified-offspring", "an exact copy of its parent entered as a new rule");
                c.count("mutated_offspring");
            }
        }
        // the predictor is the parent's, or a new one if so configured
        if (g.pred != PRED_TYPE_CONSTANT && (g.pred != PRED_TYPE_NEURAL || fixed)) {
            const Cl *parent = nullptr;
            int np = 0;
            for (const Cl *p : m)
                if (same(r->size, pre[p].size)) parent = p, ++np;
            if (np == 1) {
                const std::vector<double> w = weights(x, r), pw = weights(x, parent);
                CHECK(w.size() == pw.size(), "offspring-predictor", "a new rule has %zu predictor weights, its parent %zu", w.size(), pw.size());
                if (!g.pred_reset) {
                    for (size_t i = 0; i < w.size(); ++i) CHECK(same(w[i], pw[i]), "offspring-predictor", "predictor weight %zu of a new rule is %.12g, its parent's %.12g", i, w[i], pw[i]);
                    c.count("inherited predictors");
                } else if (g.pred != PRED_TYPE_NEURAL) {
                    const std::vector<double> fw = weights(x, blank);
                    for (size_t i = 0; i < w.size(); ++i) CHECK(same(w[i], fw[i]), "offspring-predictor", "predictor weight %zu of a new rule is %.12g, it should have been reset to %.12g", i, w[i], fw[i]);
                    c.count("reset predictors");
                } else if (w.size() > 3) {
                    CHECK(w != pw, "offspring-predictor", "the network of a new rule is its parent's, it should have been reset");
                    c.count("reset predictors");
                }
            }
        }
        CHECK(size_ok, "offspring-size", "new rule's set-size estimate %g is no selectable parent's", r->size);
    }
    if (!limit) CHECK(fresh + grown == (due ? g.lambda_ea : 0), "accounting", "%d new rules and %d extra numerosity for %d offspring", fresh, grown, g.lambda_ea);
    // without mutation-driven changes an unmodified offspring only adds numerosity
    if (due && !limit && g.p_cross == 0 && g.cond == COND_TYPE_DUMMY && (g.pred == PRED_TYPE_CONSTANT || (g.pred <= PRED_TYPE_NLMS_QUADRATIC && !g.p_evolve_eta) || g.pred == PRED_TYPE_RLS_LINEAR || g.pred == PRED_TYPE_RLS_QUADRATIC) && g.n_actions == 1) {
        CHECK(fresh == 0, "unmodified", "an unmodified offspring entered as a new rule");
        c.count("unmodified");
    }
    c.nontrivial = due && fresh > 0;
    c.count(due ? "due" : "not_due");
    if (fresh) c.count("offspring", fresh);
    if (limit) c.count("at_limit");
    clset_kill(x, &x->kset);
    clset_free(&set);
}
const Property pbt::property = {
    "C06",
    "a case is a random configuration and population with arbitrary distinct statistics; evolution is run once on an arbitrary subset; non-trivial: evolution was due and produced a new rule",
    run, 120000, 3000000, 20};
