// C14: each condition type accepts exactly the inputs its definition says.
#include "ref.hpp"
using namespace pbt;

static std::vector<double> probe(Src &s, const Cfg &g, const XCSF *x, const Cl *c)
{
    std::vector<double> v = gen_x(s, g);
    const int d = g.x_dim;
    // boundary inputs derived from the rule
    if (g.cond == COND_TYPE_HYPERRECTANGLE_CSR || g.cond == COND_TYPE_HYPERRECTANGLE_UBR) {
        const CondRectangle *r = (const CondRectangle *) c->cond;
        for (int i = 0; i < d; ++i) {
            const double lo = g.cond == COND_TYPE_HYPERRECTANGLE_CSR ? r->b1[i] - r->b2[i] : std::min(r->b1[i], r->b2[i]);
            const double hi = g.cond == COND_TYPE_HYPERRECTANGLE_CSR ? r->b1[i] + r->b2[i] : std::max(r->b1[i], r->b2[i]);
            switch (s.below(7)) {
                case 0: break;
                case 1: v[i] = lo; break;
                case 2: v[i] = hi; break;
                case 3: v[i] = s.flip() ? nextafter(lo, -1e9) : nextafter(hi, 1e9); break;
                default: v[i] = s.uniform(lo, hi);
            }
        }
    } else if (g.cond == COND_TYPE_HYPERELLIPSOID) {
        const CondEllipsoid *r = (const CondEllipsoid *) c->cond;
        if (s.chance(3, 4)) {
            std::vector<double> u((size_t) d);
            double n = 0;
            for (double &e : u) e = s.uniform(-1, 1), n += e * e;
            n = sqrt(n > 0 ? n : 1);
            const double q = s.chance(1, 4) ? 1 : s.real(0.8, 1.2);
            for (int i = 0; i < d; ++i) v[i] = r->center[i] + q * r->spread[i] * u[i] / n;
            if (s.chance(1, 4)) { // exactly on the boundary along one axis
                const int k = s.range(0, d - 1);
                for (int i = 0; i < d; ++i) v[i] = r->center[i] + (i == k ? r->spread[i] * q : 0);
            }
        }
    } else if (g.cond == COND_TYPE_TERNARY) {
        for (int i = 0; i < d; ++i) {
            const long lv = 1L << g.bits;
            const long k = (long) s.below((uint64_t) lv + 3) - 1;
            switch (s.below(4)) {
                case 0: v[i] = (double) k / (double) lv; break;
                case 1: v[i] = nextafter((double) k / (double) lv, 1e9 * s.range(-1, 1)); break;
                default: break;
            }
        }
    } else if (s.chance(1, 4)) {
        for (double &e : v) e = s.uniform(-2, 2);
    }
    return v;
}
static void run(Src &s, Case &c)
{
    CfgOpt o;
    o.net_level = 1 + (int) s.chance(1, 4);
    o.max_x = 5;
    o.preds = {PRED_TYPE_CONSTANT};
    o.pop_init = false;
    Cfg g = gen_cfg(s, o);
    g.lambda_ea = 2;
    if (g.cond == COND_TYPE_TERNARY && s.chance(1, 5)) { // many bits, most of them of no concern
        g.bits = s.range(4, 45);
        g.p_dc = 1 - 1.0 / g.bits;
    }
    Sys x(g);
    x->explore = false; // deterministic layers
    c.desc << g.str();
    // a rule by random initialisation or covering, then operators
    Cl *r[2];
    bool yes = false, no = false;
    int n_probe = 0;
    for (int k = 0; k < 2; ++k) {
        r[k] = (Cl *) malloc(sizeof(Cl));
        cl_init(x, r[k], 1, 0);
        cl_rand(x, r[k]);
    }
    const int steps = s.range(1, 6);
    for (int t = 0; t < steps; ++t) {
        Cl *q = r[s.below(2)];
        switch (s.pickw({3, 3, 2, 1, 1})) {
            case 0: {
                std::vector<double> v = gen_x(s, g);
                const int a = s.range(0, g.n_actions - 1);
                Cl *nw = (Cl *) malloc(sizeof(Cl));
                cl_init(x, nw, 1, 0);
                x->explore = true;
                cl_cover(x, nw, v.data(), a);
                x->explore = false;
                if (!g.has_state() && !g.stochastic()) {
                    double m1, m2;
                    const bool ref = ref_match(x, nw, v.data(), &m1);
                    const int ra = g.n_actions > 1 ? ref_action(x, nw, v.data(), &m2) : 0;
                    CHECK(ref || m1 < 1e-9, "cover-match", "a covering rule does not accept the input it was created for");
                    if (g.n_actions > 1)
                        CHECK(ra == a || m2 < 1e-9, "cover-action", "a covering rule created for action %d advocates %d", a, ra);
                    CHECK(cl_match(x, nw, v.data()), "cover-match-lib", "a covering rule does not match the input it was created for");
                    if (g.n_actions > 1)
                        CHECK(cl_action(x, nw, v.data()) == a, "cover-action-lib", "a covering rule created for action %d advocates %d", a,
                              cl_action(x, nw, v.data()));
                    c.count("covered");
                }
                cl_free(x, r[0]);
                r[0] = nw;
                break;
            }
            case 1: cl_mutate(x, q); break;
            case 2: cl_crossover(x, r[0], r[1]); break;
            case 3: cond_update(x, q, gen_x(s, g).data(), gen_y(s, g).data()); break;
            default: {
                Cl *nw = (Cl *) malloc(sizeof(Cl));
                cl_init(x, nw, 1, 0);
                cl_copy(x, nw, q);
                cl_free(x, r[1] == q ? r[0] : r[1]);
                (r[1] == q ? r[0] : r[1]) = nw;
            }
        }
        for (Cl *p : r) {
            if (s.chance(1, 3)) // coarse values, on which arithmetic is exact
                for (int i = 0; i < g.x_dim; ++i) {
                    if (g.cond == COND_TYPE_HYPERRECTANGLE_CSR || g.cond == COND_TYPE_HYPERRECTANGLE_UBR)
                        for (double *e : {((CondRectangle *) p->cond)->b1 + i, ((CondRectangle *) p->cond)->b2 + i}) *e = std::max(round(*e * 64), e == ((CondRectangle *) p->cond)->b1 + i ? -1e6 : g.cond == COND_TYPE_HYPERRECTANGLE_CSR ? 1 : -1e6) / 64;
                    if (g.cond == COND_TYPE_HYPERELLIPSOID) {
                        CondEllipsoid *q2 = (CondEllipsoid *) p->cond;
                        q2->center[i] = round(q2->center[i] * 64) / 64;
                        q2->spread[i] = std::max(1.0, round(q2->spread[i] * 64)) / 64;
                    }
                }
            for (int k = s.range(1, 3); k > 0; --k) {
                std::vector<double> v = probe(s, g, x, p);
                double m1, m2;
                const bool ref = ref_match(x, p, v.data(), &m1);
                const int ra = ref_action(x, p, v.data(), &m2);
                const bool got = cl_match(x, p, v.data());
                if (m1 >= 1e-9) CHECK(got == ref, "match", "rule %s the input but by definition it %s", got ? "accepts" : "refuses", ref ? "accepts" : "refuses");
                CHECK(cl_m(x, p) == got, "match-flag", "cl_m()=%d after cl_match()=%d", cl_m(x, p), got);
                if (g.n_actions > 1) {
                    const int a = cl_action(x, p, v.data());
                    CHECK(a >= 0 && a < g.n_actions, "action-range", "action %d of %d", a, g.n_actions);
                    if (m2 >= 1e-9) CHECK(a == ra, "action", "rule advocates %d, by definition %d", a, ra);
                }
                (got ? yes : no) = true;
                ++n_probe;
            }
        }
    }
    for (Cl *p : r) cl_free(x, p);
    c.count(condition_type_as_string(g.cond));
    c.count("probes", n_probe);
    c.nontrivial = (yes && no) || g.cond == COND_TYPE_DUMMY;
}
const Property pbt::property = {
    "C14",
    "a case is a random configuration and two rules changed by covering, mutation, crossover, condition update and copying, probed with random and boundary inputs after each operator; non-trivial: both accepted and refused inputs were probed",
    run, 60000, 2000000, 20};
