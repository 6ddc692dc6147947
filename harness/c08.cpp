// C08: deletion.
#include "ref.hpp"
using namespace pbt;

static double ref_vote(const XCSF *x, const Cl *c, double avg)
{
    double v = c->size * c->num;
    if (c->exp > x->THETA_DEL && c->fit < x->DELTA * avg * c->num) v *= avg / (c->fit / c->num);
    return v;
}
static bool overdue(const XCSF *x, const Cl *c) { return c->mtotal == 0 && c->age > x->M_PROBATION; }

static void run(Src &s, Case &c)
{
    CfgOpt o;
    o.net_level = 0;
    o.pop_init = false;
    o.conds = {COND_TYPE_DUMMY, COND_TYPE_TERNARY, COND_TYPE_HYPERRECTANGLE_CSR, COND_TYPE_GP, COND_TYPE_NEURAL, COND_TYPE_DGP};
    o.preds = {PRED_TYPE_CONSTANT, PRED_TYPE_NLMS_LINEAR, PRED_TYPE_NEURAL};
    o.recurrent = false;
    Cfg g = gen_cfg(s, o);
    g.theta_del = s.range(0, 30);
    g.delta = s.real(0, 1);
    g.pop_size = 1;
    const bool dist = s.chance(1, 12);
    const bool want = dist && s.flip();
    if (want) g.compaction = true, g.e0 = std::max(g.e0, 0.01);
    Sys x(g);
    const int n = s.range(1, 8);
    add_rules(x, g, s, n);
    if (want) // rules of different sizes
        for (Clist *i = x->pset.list; i; i = i->next)
            for (int k = s.range(0, 4); k > 0; --k) cl_mutate(x, i->cl);
    x->time = 60;
    scramble(x, s, dist ? 5 : 4);
    for (Clist *i = x->pset.list; i; i = i->next) {
        Cl *r = i->cl;
        if (s.chance(1, 3)) r->fit *= 0.01;
        if (s.chance(1, 4)) r->size = dist ? r->size : 0;
        if (s.chance(1, 4)) r->exp = g.theta_del + s.range(0, 1);
        if (dist) {
            r->num += 1;
            ++x->pset.num;
        }
        if (s.chance(1, 5)) r->mtotal = 0;
    }
    if (want) x->error = 0;
    else if (s.flip()) x->error = g.e0 * s.real(0, 2);
    const bool compact = g.compaction && x->error < g.e0;
    c.desc << (dist ? "distribution " : "accounting ") << g.str() << " rules=" << n << " compact=" << compact;
    std::vector<const Cl *> all = rules(x->pset);
    const int what = (S_RULE | S_MATCH | S_PREDVAL);
    auto body = [&](const Cl *r) {
        Snap q = snap_cl(x, r, what);
        for (Field &f : q)
            if (!strcmp(f.name, "num")) f.v = 0;
        return q;
    };
    std::vector<Snap> pre;
    std::vector<int> num;
    for (const Cl *r : all) pre.push_back(body(r)), num.push_back(r->num);
    const int total = x->pset.num;
    if (!dist) {
        const int k = s.small(0, total - 1);
        x->POP_SIZE = total - k;
        long ov = 0;
        double zero_votes = 0, pos = 0;
        long pos_num = 0;
        double fsum = 0;
        for (const Cl *r : all) fsum += r->fit;
        for (const Cl *r : all) {
            if (overdue(x, r)) ov += r->num;
            else if (r->size > 0) pos += 1, pos_num += r->num;
            else zero_votes += 1;
        }
        clset_init(&x->kset);
        clset_pset_enforce_limit(x);
        check_population(x);
        CHECK(x->pset.num == total - k, "exact", "numerosity went from %d to %d with limit %d", total, x->pset.num, x->POP_SIZE);
        std::set<const Cl *> alive, dead;
        for (const Cl *r : rules(x->pset)) alive.insert(r);
        for (const Cl *r : rules(x->kset)) CHECK(dead.insert(r).second, "deleted-twice", "a rule was deleted twice");
        long taken_ov = 0, taken_zero = 0, taken = 0;
        for (size_t i = 0; i < all.size(); ++i) {
            const Cl *r = all[i];
            CHECK(alive.count(r) != dead.count(r), "lost", "a rule is neither in the population nor among the deleted");
            CHECK((r->num == 0) == (dead.count(r) > 0), "removal", "rule with numerosity %d deleted=%d", r->num, (int) dead.count(r));
            CHECK(r->num <= num[i] && r->num >= 0, "increase", "numerosity went from %d to %d", num[i], r->num);
            const std::string df = diff(pre[i], body(r));
            CHECK(df.empty(), "touched", "deletion changed a rule: %s", df.c_str());
            const long t = num[i] - r->num;
            taken += t;
            if (overdue(x, r)) taken_ov += t;
            else if (r->size == 0) taken_zero += t;
        }
        CHECK(taken_ov == std::min<long>(ov, k), "probation", "%ld of %d deletions hit the %ld overdue never-matching units", taken_ov, k, ov);
        const long rest = k - taken_ov;
        if (rest > 0 && rest <= pos_num) CHECK(taken_zero == 0, "zero-vote", "a rule with zero deletion vote was chosen while others had one");
        c.nontrivial = k > 0 && n > 1;
        c.count("deletions", k);
        if (ov) c.count("overdue");
        if (compact) c.count("compaction");
        clset_kill(x, &x->kset);
        return;
    }
    // distribution of the first choice
    bool any_ov = false;
    for (const Cl *r : all) any_ov |= overdue(x, r);
    if (any_ov || n < 2) throw Discard();
    double fsum = 0, tot = 0;
    for (const Cl *r : all) fsum += r->fit;
    std::vector<double> v, p, sz;
    bool edge = false;
    for (const Cl *r : all) {
        v.push_back(ref_vote(x, r, fsum / total));
        tot += v.back();
        sz.push_back(cl_cond_size(x, r) + cl_pred_size(x, r));
        edge |= fabs(r->fit - x->DELTA * fsum / total * r->num) < 1e-12;
    }
    if (edge) throw Discard();
    for (size_t i = 0; i < v.size(); ++i) {
        const double a = v[i] / tot;
        if (!compact) p.push_back(a);
        else { // the larger of two draws, the first on equal size
            double q = a * a;
            for (size_t j = 0; j < v.size(); ++j)
                if (j != i) q += a * v[j] / tot * (sz[j] < sz[i] ? 2 : sz[j] == sz[i] ? 1 : 0);
            p.push_back(q);
        }
    }
    const int K = 1500;
    std::vector<int> hits(all.size());
    x->POP_SIZE = total - 1;
    for (int k = 0; k < K; ++k) {
        clset_init(&x->kset);
        clset_pset_enforce_limit(x);
        int hit = -1;
        for (size_t i = 0; i < all.size(); ++i)
            if (all[i]->num != num[i]) {
                CHECK(hit < 0 && all[i]->num == num[i] - 1, "one-unit", "one deletion changed numerosities by more than one");
                hit = (int) i;
                ++((Cl *) all[i])->num;
                ++x->pset.num;
            }
        CHECK(hit >= 0 && rules(x->kset).empty() && x->pset.num == total, "one-unit", "one deletion took no unit or removed a rule");
        ++hits[(size_t) hit];
    }
    for (size_t i = 0; i < all.size(); ++i) {
        const double e = K * p[i], sd = sqrt(K * p[i] * (1 - p[i]));
        CHECK(fabs(hits[i] - e) <= 8 * sd + 9, "distribution", "rule %zu (vote share %.4f, size %g) was chosen %d times in %d, expected %.1f +- %.1f", i, p[i], sz[i], hits[i], K, e, sd);
    }
    c.nontrivial = true;
    c.count("distributions");
    if (compact) c.count("compaction_distributions");
}
const Property pbt::property = {
    "C08",
    "a case is a random population with arbitrary statistics (zero votes, overdue rules, low fitness) reduced below its numerosity, or 1500 repetitions of a single deletion compared with the vote distribution (8 standard deviations plus 9); non-trivial: something was deleted from two or more rules",
    run, 60000, 2000000, 20};
