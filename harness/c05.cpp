// C05: rule statistics follow the update equations.
#include "ref.hpp"
using namespace pbt;

struct Exp {
    const Cl *c;
    bool in;
    double err, fit, size;
    int exp, num, time;
    double loss;
    Snap rest;
};
static double ref_acc(const XCSF *x, double err)
{
    if (err <= x->E0) return 1;
    return std::max(x->ALPHA * pow(err / x->E0, -x->NU), DBL_EPSILON);
}
// reference update of the members
static void expect_update(const XCSF *x, std::vector<Exp> &v)
{
    long setnum = 0;
    for (Exp &e : v)
        if (e.in) setnum += e.num;
    for (Exp &e : v)
        if (e.in) {
            ++e.exp;
            const double rate = e.exp * x->BETA < 1 ? 1.0 / e.exp : x->BETA;
            e.err += rate * (e.loss - e.err);
            e.size += rate * ((double) setnum - e.size);
        }
}
// fitness from the (already verified) errors after the update
static void expect_fit(const XCSF *x, std::vector<Exp> &v)
{
    long double sum = 0;
    for (Exp &e : v)
        if (e.in) sum += (long double) ref_acc(x, e.c->err) * e.num;
    for (Exp &e : v)
        if (e.in) e.fit += x->BETA * ((double) (ref_acc(x, e.c->err) * e.num / sum) - e.fit);
}

static void run(Src &s, Case &c)
{
    CfgOpt o;
    o.stochastic = false;
    o.recurrent = false;
    o.stateful = false;
    Cfg g = gen_cfg(s, o);
    g.set_sub = false;
    if (g.n_actions == 1 && s.chance(1, 6)) g.loss = LOSS_ONEHOT;
    auto d = gen_data(s, g, s.range(1, 6));
    Sys x(g);
    c.desc << g.str();
    train(x, *d, s, s.range(1, g.neural() ? 10 : 40));
    if (s.chance(1, 2)) add_rules(x, g, s, s.range(1, 5));
    if (s.chance(1, 2)) scramble(x, s, 4);
    x->POP_SIZE = x->pset.num + 1000; // nothing is deleted
    ea_param_set_theta(x, 1e9); // and nothing evolves
    int updated = 0, outside = 0, steps = s.range(1, 5);
    for (int k = 0; k < steps; ++k) {
        const bool trial = g.n_actions == 1 && s.flip();
        const int row = s.range(0, d->in.n_samples - 1);
        const double *in = d->xrow(row), *y = d->yrow(row);
        std::vector<Exp> v;
        bool any = false, amb = false;
        Input test = d->in, train1 = d->in;
        const bool use_test = trial && s.chance(1, 3);
        for (const Cl *r : rules(x->pset)) {
            Exp e = {r, false, r->err, r->fit, r->size, r->exp, r->num, r->time, 0, snap_cl(x, r, S_COND | S_ACT | S_PRED | S_MU)};
            if (trial) {
                double m;
                e.in = ref_match(x, r, in, &m);
                amb |= m < 1e-9;
            } else {
                e.in = s.flip();
            }
            any |= e.in;
            v.push_back(e);
        }
        if (amb) break;
        const bool cur = trial || s.flip();
        for (Exp &e : v) {
            if (!e.in) continue;
            cl_predict(x, e.c, in);
            e.loss = ref_loss(x, e.c->prediction, y);
            if (!cur && g.pred != PRED_TYPE_CONSTANT) // a prediction for something else
                for (int j = 0; j < g.y_dim; ++j) e.c->prediction[j] = 1e5;
        }
        // an error exactly at the target: as accurate as can be
        if (s.chance(1, 3)) {
            for (Exp &e : v)
                if (e.in && e.loss > 1e-6 && e.loss < 100) {
                    Cl *r = (Cl *) e.c;
                    r->err = e.err = e.loss;
                    r->exp = e.exp = 1000;
                    x->E0 = e.loss;
                    c.count("error_at_target");
                    break;
                }
        }
        expect_update(x, v);
        const int time = x->time;
        if (trial) {
            // rows are visited from "start"; the test trial must not learn
            xcs_supervised_fit(x, &train1, use_test ? &test : nullptr, false, row, 1);
            CHECK(x->time == time + 1, "clock", "clock went from %d to %d in one trial", time, x->time);
        } else {
            std::vector<const Cl *> m;
            for (const Exp &e : v)
                if (e.in) m.push_back(e.c);
            if (m.empty()) continue;
            Set set = make_set(m);
            clset_init(&x->kset);
            clset_update(x, &set, in, y, cur);
            CHECK(set.size == (int) m.size() && rules(x->kset).empty(), "set-changed", "updating changed the set");
            clset_free(&set);
        }
        for (const Exp &e : v) {
            if (!e.in) {
                ++outside;
                CHECK(e.c->exp == e.exp && same(e.c->err, e.err) && same(e.c->fit, e.fit) && same(e.c->size, e.size), "outside-stats",
                      "a rule outside the set changed: exp %d->%d err %g->%g fit %g->%g size %g->%g", e.exp, e.c->exp, e.err, e.c->err, e.fit, e.c->fit, e.size, e.c->size);
                const std::string df = diff(e.rest, snap_cl(x, e.c, S_COND | S_ACT | S_PRED | S_MU));
                CHECK(df.empty(), "outside-rule", "a rule outside the set changed: %s", df.c_str());
            } else {
                ++updated;
                CHECK(e.c->exp == e.exp, "exp", "experience is %d, expected %d", e.c->exp, e.exp);
                CHECK(close(e.c->err, e.err, 1e-8, 1e-11), "err", "error is %.12g, expected %.12g (exp %d, loss %.12g)", e.c->err, e.err, e.exp, e.loss);
                CHECK(close(e.c->size, e.size, 1e-9, 1e-11), "size", "set size estimate is %.12g, expected %.12g (exp %d)", e.c->size, e.size, e.exp);
            }
            CHECK(e.c->num == e.num, "num", "numerosity %d, expected %d", e.c->num, e.num);
            CHECK(e.c->time == e.time, "time", "time stamp %d, expected %d", e.c->time, e.time);
        }
        expect_fit(x, v);
        for (const Exp &e : v)
            if (e.in) CHECK(close(e.c->fit, e.fit, 1e-7, 1e-11), "fit", "fitness is %.12g, expected %.12g", e.c->fit, e.fit);
        // a rule created by covering learns in the same trial
        if (trial && !any) {
            int fresh = 0;
            for (const Cl *r : rules(x->pset)) {
                bool known = false;
                for (const Exp &e : v) known |= e.c == r;
                if (known || r->exp == 0) continue; // (exp 0: covered by the test row)
                ++fresh;
                const double f = g.init_fit + g.beta * (1 - g.init_fit);
                CHECK(r->exp == 1 && close(r->fit, f) && close(r->size, 1), "cover-update", "covering rule after its first update: exp %d fit %g (expected %g) size %g", r->exp, r->fit, f, r->size);
            }
            CHECK(fresh == 1, "cover-update-count", "%d new rules learned in a trial nobody matched", fresh);
            c.count("covered");
        }
        c.count(trial ? "trials" : "set_updates");
    }
    c.nontrivial = updated >= 2 && outside >= 1;
    c.count(loss_type_as_string(g.loss));
}
const Property pbt::property = {
    "C05",
    "a case is a random configuration and population (trained, or with arbitrary statistics) and one to five updates, each a full trial or an update of an arbitrary subset; non-trivial: at least two updates of rules and one rule outside the set",
    run, 40000, 1500000, 20};
