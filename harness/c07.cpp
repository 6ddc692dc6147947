// C07: subsumption.
#include "ref.hpp"
using namespace pbt;

static const std::vector<int> SUBS = {COND_TYPE_HYPERRECTANGLE_CSR, COND_TYPE_HYPERRECTANGLE_UBR, COND_TYPE_TERNARY, COND_TYPE_HYPERELLIPSOID};

// give the rule a condition from a coarse grid, so that nesting is common
static void coarse(XCSF *x, const Cfg &g, Src &s, Cl *c)
{
    for (int i = 0; i < g.x_dim; ++i) {
        if (g.cond == COND_TYPE_HYPERRECTANGLE_CSR || g.cond == COND_TYPE_HYPERRECTANGLE_UBR) {
            CondRectangle *r = (CondRectangle *) c->cond;
            const double a = 0.25 * s.range(0, 4), b = 0.25 * s.range(0, 4);
            r->b1[i] = g.cond == COND_TYPE_HYPERRECTANGLE_CSR ? 0.5 : a;
            r->b2[i] = g.cond == COND_TYPE_HYPERRECTANGLE_CSR ? 0.125 * s.range(1, 6) : b;
        } else if (g.cond == COND_TYPE_HYPERELLIPSOID) {
            CondEllipsoid *r = (CondEllipsoid *) c->cond;
            r->center[i] = 0.5;
            r->spread[i] = 0.125 * s.range(1, 8);
        }
    }
    if (g.cond == COND_TYPE_TERNARY) {
        CondTernary *r = (CondTernary *) c->cond;
        for (int i = 0; i < r->length; ++i) r->string[i] = "##01"[s.below(4)];
    }
    if (g.act == ACT_TYPE_INTEGER && !g.rule_type()) ((ActInteger *) c->act)->action = s.range(0, g.n_actions - 1);
}
static bool subsumer(const XCSF *x, const Cl *c) { return c->exp > x->THETA_SUB && c->err < x->E0; }

static void set_case(Src &s, Case &c)
{
    CfgOpt o;
    o.stochastic = false;
    o.net_level = 0;
    o.pop_init = false;
    if (s.chance(3, 4)) o.conds = SUBS;
    o.max_x = 3;
    o.act_neural = s.chance(1, 6);
    Cfg g = gen_cfg(s, o);
    g.set_sub = s.chance(7, 8);
    g.c_min = 0, g.c_max = 1;
    g.c_eta = 0;
    g.pop_size = 100000;
    g.beta = s.real(0.01, 0.3);
    Sys x(g);
    c.desc << "set subsumption " << g.str();
    x->time = 50;
    add_rules(x, g, s, s.range(2, 10));
    for (Clist *i = x->pset.list; i; i = i->next)
        if (s.chance(7, 8)) coarse(x, g, s, i->cl);
    scramble(x, s, s.chance(1, 6) ? 100 : 3);
    for (Clist *i = x->pset.list; i; i = i->next)
        if (s.flip()) i->cl->exp = x->THETA_SUB + s.range(0, 5), i->cl->err = g.e0 * s.real(0.1, 1.1);
    // update an arbitrary subset
    std::vector<const Cl *> all = rules(x->pset), m;
    for (const Cl *r : all)
        if (s.chance(3, 4)) m.push_back(r);
    if (m.empty()) throw Discard();
    std::map<const Cl *, int> num;
    std::map<const Cl *, Snap> body;
    for (const Cl *r : all) {
        num[r] = r->num;
        if (std::find(m.begin(), m.end(), r) == m.end()) body[r] = snap_cl(x, r, S_RULE);
    }
    const int total = x->pset.num;
    const std::vector<double> v = gen_x(s, g), y = gen_y(s, g);
    Set set = make_set(m);
    clset_init(&x->kset);
    clset_update(x, &set, v.data(), y.data(), false);
    check_population(x);
    CHECK(x->pset.num == total, "numerosity", "total numerosity went from %d to %d", total, x->pset.num);
    std::set<const Cl *> in_p, in_s, dead;
    for (const Cl *r : rules(x->pset)) in_p.insert(r);
    for (const Cl *r : rules(set)) CHECK(in_s.insert(r).second, "set-duplicate", "a rule is in the set twice");
    for (const Cl *r : rules(x->kset)) dead.insert(r);
    int setnum = 0;
    for (const Cl *r : in_s) setnum += r->num;
    CHECK((int) in_s.size() == set.size && setnum == set.num, "set-books", "set counts %d/%d, actual %zu/%d", set.size, set.num, in_s.size(), setnum);
    std::vector<const Cl *> gone, grown, cand;
    for (const Cl *r : all) {
        const bool member = std::find(m.begin(), m.end(), r) != m.end();
        const bool alive = in_p.count(r) > 0;
        if (!alive) {
            CHECK(dead.count(r), "vanished", "a rule left the population without being deleted");
            CHECK(member, "outsider-absorbed", "a rule outside the set was absorbed");
            gone.push_back(r);
        } else if (r->num != num[r]) {
            CHECK(member && r->num > num[r], "numerosity-changed", "numerosity of a rule went from %d to %d", num[r], r->num);
            grown.push_back(r);
        }
        CHECK((in_s.count(r) > 0) == (member && alive), "set-membership", "rule member=%d alive=%d in set=%d", member, alive, (int) in_s.count(r));
        if (!member) {
            const std::string df = diff(body[r], snap_cl(x, r, S_RULE));
            CHECK(df.empty(), "outsider-changed", "a rule outside the set changed: %s", df.c_str());
        } else if (subsumer(x, r)) {
            cand.push_back(r);
        }
    }
    bool amb = false;
    auto gen = [&](const Cl *a, const Cl *b) { return ref_general(x, a, b, &amb); };
    for (const Cl *a : m)
        for (const Cl *b : m) gen(a, b);
    for (const Cl *r : m) amb |= fabs(r->err - x->E0) < 1e-12;
    if (!amb) {
        if (!g.set_sub) CHECK(gone.empty(), "disabled", "%zu rules absorbed with set subsumption disabled", gone.size());
        else if (!gone.empty()) {
            CHECK(grown.size() == 1, "absorbers", "%zu rules absorbed others", grown.size());
            const Cl *a = grown[0];
            CHECK(subsumer(x, a), "unqualified", "absorbing rule has experience %d (threshold %d) and error %g (target %g)", a->exp, x->THETA_SUB, a->err, x->E0);
            int sum = 0;
            for (const Cl *r : gone) {
                CHECK(gen(a, r), "not-general", "a rule absorbed another that it does not generalise");
                sum += num[r];
            }
            CHECK(a->num == num[a] + sum, "absorbed-numerosity", "absorber went from %d to %d, absorbed %d", num[a], a->num, sum);
            for (const Cl *r : m)
                if (r != a && gen(a, r)) CHECK(!in_p.count(r) && !in_s.count(r), "remaining", "a rule that the absorber generalises remains");
            if (g.cond != COND_TYPE_HYPERELLIPSOID)
                for (const Cl *r : cand)
                    if (r != a && gen(r, a)) CHECK(gen(a, r), "not-most-general", "a qualified rule more general than the absorber exists");
            c.count("absorbed", (long) gone.size());
        } else if (g.cond != COND_TYPE_HYPERELLIPSOID && !cand.empty()) {
            // some maximal qualified rule must have nobody to absorb
            bool ok = false;
            for (const Cl *r : cand) {
                bool maximal = true, idle = true;
                for (const Cl *q : m) {
                    if (q == r) continue;
                    if (gen(r, q)) idle = false;
                    if (subsumer(x, q) && gen(q, r) && !gen(r, q)) maximal = false;
                }
                ok |= maximal && idle;
            }
            CHECK(ok, "not-absorbed", "a qualified most general rule generalises another rule of the set but absorbed nobody");
        }
    }
    c.nontrivial = !gone.empty() || cand.size() > 0;
    c.count(g.set_sub ? "set_enabled" : "set_disabled");
    clset_kill(x, &x->kset);
    clset_free(&set);
}
// crossover with many genes always modifies, so every offspring must be
// inserted or absorbed by a qualified rule
static void ea_case(Src &s, Case &c)
{
    CfgOpt o;
    o.pop_init = false;
    o.conds = {COND_TYPE_HYPERRECTANGLE_CSR, COND_TYPE_HYPERRECTANGLE_UBR, COND_TYPE_TERNARY, COND_TYPE_TERNARY, COND_TYPE_HYPERELLIPSOID};
    o.preds = {PRED_TYPE_CONSTANT};
    o.act_neural = false;
    Cfg g = gen_cfg(s, o);
    g.x_dim = 30;
    g.bits = 2;
    g.p_cross = 1;
    g.theta_ea = 0;
    g.ea_sub = s.chance(3, 4);
    g.pop_size = 100000;
    g.c_min = 0, g.c_max = 1;
    Sys x(g);
    c.desc << "offspring subsumption " << g.str();
    x->time = 50;
    const int n = s.range(2, 7);
    add_rules(x, g, s, n);
    for (Clist *i = x->pset.list; i; i = i->next) {
        Cl *r = i->cl;
        if (s.chance(1, 3)) { // a rule that generalises everything
            for (int k = 0; k < g.x_dim; ++k) {
                if (g.cond == COND_TYPE_HYPERRECTANGLE_CSR) ((CondRectangle *) r->cond)->b1[k] = 0.5, ((CondRectangle *) r->cond)->b2[k] = 9;
                if (g.cond == COND_TYPE_HYPERRECTANGLE_UBR) ((CondRectangle *) r->cond)->b1[k] = -9, ((CondRectangle *) r->cond)->b2[k] = 9;
                if (g.cond == COND_TYPE_HYPERELLIPSOID) ((CondEllipsoid *) r->cond)->spread[k] = 900;
            }
            if (g.cond == COND_TYPE_TERNARY)
                for (int k = 0; k < ((CondTernary *) r->cond)->length; ++k) ((CondTernary *) r->cond)->string[k] = '#';
        } else if (g.cond == COND_TYPE_TERNARY) { // a rule that generalises nothing
            for (int k = 0; k < ((CondTernary *) r->cond)->length; ++k) ((CondTernary *) r->cond)->string[k] = s.flip() ? '1' : '0';
        }
    }
    scramble(x, s, 3);
    for (Clist *i = x->pset.list; i; i = i->next)
        if (s.flip()) i->cl->exp = x->THETA_SUB + s.range(0, 3), i->cl->err = g.e0 * s.real(0.1, 1.1);
    std::vector<const Cl *> all = rules(x->pset), m;
    for (const Cl *r : all)
        if (s.chance(3, 4)) m.push_back(r);
    if (m.empty()) throw Discard();
    std::map<const Cl *, int> num;
    for (const Cl *r : all) num[r] = r->num;
    const int total = x->pset.num;
    Set set = make_set(m);
    clset_init(&x->kset);
    ea(x, &set);
    check_population(x);
    CHECK(x->pset.num == total + g.lambda_ea, "offspring-numerosity", "total numerosity went from %d to %d with %d offspring", total, x->pset.num, g.lambda_ea);
    int fresh = 0, grown = 0;
    for (const Cl *r : rules(x->pset)) {
        if (!num.count(r)) {
            ++fresh;
            continue;
        }
        if (r->num == num[r]) continue;
        grown += r->num - num[r];
        CHECK(r->num > num[r], "shrunk", "numerosity fell from %d to %d", num[r], r->num);
        CHECK(std::find(m.begin(), m.end(), r) != m.end(), "outsider", "a rule outside the set absorbed an offspring");
        CHECK(g.ea_sub, "disabled", "an offspring was absorbed with subsumption disabled");
        CHECK(subsumer(x, r), "unqualified", "absorbing rule has experience %d (threshold %d) and error %g (target %g)", r->exp, x->THETA_SUB, r->err, x->E0);
        if (g.cond == COND_TYPE_TERNARY)
            CHECK(((CondTernary *) r->cond)->string[0] == '#', "not-general-offspring", "a fully specific rule absorbed an offspring");
    }
    CHECK(fresh + grown == g.lambda_ea, "offspring-count", "%d new rules and %d absorbed of %d offspring", fresh, grown, g.lambda_ea);
    // an offspring that a qualified rule of the set generalises must not enter
    if (g.ea_sub)
        for (const Cl *r : rules(x->pset))
            if (!num.count(r))
                for (const Cl *q : m) {
                    bool amb = false;
                    if (subsumer(x, q) && ref_general(x, q, r, &amb) && !amb)
                        pbt::fail("not-absorbed", "an offspring entered although a qualified rule of the set generalises it");
                }
    c.nontrivial = true;
    c.count(grown ? "offspring_absorbed" : "offspring_inserted");
    clset_kill(x, &x->kset);
    clset_free(&set);
}
static void run(Src &s, Case &c)
{
    if (s.chance(1, 3)) ea_case(s, c);
    else set_case(s, c);
}
const Property pbt::property = {
    "C07",
    "a case is a random set of rules on a coarse grid (so that nesting is common) with experience and error around the thresholds, updated or evolved once; non-trivial: some rule was qualified to absorb, or offspring were produced",
    run, 60000, 2000000, 20};
