// C02: match set formation and covering.
#include "ref.hpp"
using namespace pbt;

struct Before {
    const Cl *c;
    int age, mtotal, num;
    bool m;
    double margin;
    int act;
    double amargin;
};
static double ref_mfrac(const XCSF *x)
{
    double best = 0, low = 0, err = INFINITY;
    for (const Cl *c : rules(x->pset)) {
        const double f = c->age > 0 ? (double) c->mtotal / c->age : 0;
        if (c->exp * x->BETA <= 1) continue;
        if (c->err < x->E0) best = std::max(best, f);
        if (c->err < err) err = c->err, low = f;
    }
    return best > 0 ? best : low;
}
static void run(Src &s, Case &c)
{
    CfgOpt o;
    o.stochastic = false;
    o.max_pop = 30;
    Cfg g = gen_cfg(s, o);
    auto d = gen_data(s, g, s.range(1, 8));
    Sys x(g);
    c.desc << g.str();
    train(x, *d, s, s.range(0, g.neural() ? 10 : 30));
    const int calls = s.range(1, 4);
    bool covered = false, matched = false, full = false;
    for (int k = 0; k < calls; ++k) {
        if (s.chance(1, 2)) {
            add_rules(x, g, s, s.range(0, std::max(0, std::min(6, g.pop_size - x->pset.num))));
            if (s.flip()) scramble(x, s, 1);
        }
        const std::vector<double> v = s.flip() ? std::vector<double>(d->xrow(0), d->xrow(0) + g.x_dim) : gen_x(s, g);
        const bool cover = s.chance(3, 4);
        x->explore = s.flip();
        std::vector<Before> pre;
        for (const Cl *r : rules(x->pset)) {
            Before b = {r, r->age, r->mtotal, r->num, false, 0, 0, 0};
            b.m = ref_match(x, r, v.data(), &b.margin);
            b.act = ref_action(x, r, v.data(), &b.amargin);
            pre.push_back(b);
        }
        const double mset_size = x->mset_size, mfrac = x->mfrac;
        const int num0 = x->pset.num;
        clset_init(&x->mset);
        clset_init(&x->kset);
        clset_match(x, v.data(), cover);
        check_population(x, cover || num0 <= g.pop_size);
        std::set<const Cl *> known, in_m, in_p, dead;
        for (const Cl *r : rules(x->mset)) CHECK(in_m.insert(r).second, "duplicate", "a rule is in the match set twice");
        for (const Cl *r : rules(x->pset)) in_p.insert(r);
        for (const Cl *r : rules(x->kset)) dead.insert(r);
        CHECK((int) in_m.size() == x->mset.size, "mset-size", "match set size %d but %zu rules", x->mset.size, in_m.size());
        std::vector<bool> had((size_t) g.n_actions);
        int lost = 0;
        for (const Before &b : pre) {
            known.insert(b.c);
            const bool alive = in_p.count(b.c) > 0;
            CHECK(alive || dead.count(b.c), "vanished", "a rule is neither in the population nor deleted");
            const bool m = b.c->m;
            if (b.margin >= 1e-9) CHECK(m == b.m, "match", "rule %s the input, by definition it %s", m ? "matched" : "refused", b.m ? "matches" : "does not");
            CHECK(b.c->age == b.age + 1, "age", "age went from %d to %d", b.age, b.c->age);
            CHECK(b.c->mtotal == b.mtotal + m, "mtotal", "match count went from %d to %d, match %d", b.mtotal, b.c->mtotal, m);
            CHECK((in_m.count(b.c) > 0) == (m && alive), "membership", "rule matched=%d alive=%d but in match set=%d", m, alive, (int) in_m.count(b.c));
            if (m) {
                matched = true;
                if (g.n_actions > 1 && b.amargin >= 1e-9) CHECK(b.c->action == b.act, "action", "rule advocates %d, by definition %d", b.c->action, b.act);
                CHECK(b.c->action >= 0 && b.c->action < g.n_actions, "action-range", "action %d", b.c->action);
                had[(size_t) b.c->action] = true;
            }
            if (!alive || b.c->num != b.num) ++lost;
            CHECK(b.c->num <= b.num, "num", "numerosity grew from %d to %d by matching", b.num, b.c->num);
            if (!cover) CHECK(b.c->num == b.num && alive, "no-cover-delete", "matching without covering removed a rule");
        }
        std::vector<int> fresh((size_t) g.n_actions), adv((size_t) g.n_actions);
        for (const std::set<const Cl *> *q : {&in_p, &dead})
            for (const Cl *r : *q) {
                if (known.count(r)) continue;
                CHECK(cover, "no-cover-create", "a rule was created with covering disabled");
                covered = true;
                if (q == &dead) {
                    ++lost;
                    continue;
                }
                CHECK(in_m.count(r), "cover-member", "a covering rule is not in the match set");
                CHECK(r->action >= 0 && r->action < g.n_actions, "cover-action-range", "action %d", r->action);
                fresh[(size_t) r->action]++;
                CHECK(r->num == 1 && r->exp == 0 && same(r->err, g.init_err) && same(r->fit, g.init_fit) && r->time == x->time, "cover-init",
                      "covering rule num=%d exp=%d err=%g fit=%g time=%d (configured err %g fit %g, clock %d)", r->num, r->exp, r->err,
                      r->fit, r->time, g.init_err, g.init_fit, x->time);
                CHECK(r->m, "cover-flag", "covering rule is not marked as matching");
                if (!g.has_state()) {
                    double m1, m2;
                    CHECK(ref_match(x, r, v.data(), &m1) || m1 < 1e-9, "cover-match", "covering rule does not accept the input");
                    if (g.n_actions > 1)
                        CHECK(ref_action(x, r, v.data(), &m2) == r->action || m2 < 1e-9, "cover-action", "covering rule for action %d advocates %d", r->action, ref_action(x, r, v.data(), &m2));
                }
            }
        for (const Cl *r : in_m) {
            CHECK(in_p.count(r), "mset-subset", "a rule of the match set is not in the population");
            adv[(size_t) r->action]++;
        }
        for (int a = 0; a < g.n_actions; ++a) {
            if (cover) CHECK(adv[(size_t) a] > 0, "uncovered", "no rule of the match set advocates action %d", a);
            if (!lost)
                CHECK(fresh[(size_t) a] == (cover && !had[(size_t) a] ? 1 : 0), "cover-count", "%d covering rules for action %d, which %s an advocate", fresh[(size_t) a], a, had[(size_t) a] ? "had" : "lacked");
        }
        if (!lost) {
            int num = 0;
            for (const Cl *r : in_m) num += r->num;
            CHECK(num == x->mset.num, "mset-num", "match set numerosity %d, recorded %d", num, x->mset.num);
        }
        CHECK(close(x->mset_size, mset_size + g.beta * (x->mset.size - mset_size)), "mset-average", "match set size average %g", x->mset_size);
        CHECK(close(x->mfrac, mfrac + g.beta * (ref_mfrac(x) - mfrac)), "mfrac-average", "matching fraction average %g, expected %g", x->mfrac, mfrac + g.beta * (ref_mfrac(x) - mfrac));
        full |= x->pset.num == g.pop_size;
        clset_kill(x, &x->kset);
        clset_free(&x->mset);
        if (x->pset.num > g.pop_size) break;
    }
    c.nontrivial = covered || matched;
    if (covered) c.count("covered");
    if (matched) c.count("matched");
    if (covered && full) c.count("covered_when_full");
    c.count(condition_type_as_string(g.cond));
}
const Property pbt::property = {
    "C02",
    "a case is a random configuration, a trained or random population and one to four inputs presented with or without covering; non-trivial: at least one rule matched or was created",
    run, 40000, 1500000, 20};
