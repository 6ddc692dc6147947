// C15: a condition judged at least as general accepts everything the other
// one accepts, and containment is recognised.
#include "ref.hpp"
using namespace pbt;

static Cl *fresh(Sys &x)
{
    Cl *r = (Cl *) malloc(sizeof(Cl));
    cl_init(x, r, 1, 0);
    cl_rand(x, r);
    return r;
}
static double bound(Src &s, double lo, double hi) { return lo + (hi - lo) * (double) s.below(17) / 16; }
// random condition on a dyadic grid or arbitrary
static void shape(Src &s, const Cfg &g, Cl *r)
{
    const bool grid = s.flip();
    const double w = g.c_max - g.c_min;
    if (g.cond == COND_TYPE_HYPERRECTANGLE_CSR || g.cond == COND_TYPE_HYPERRECTANGLE_UBR) {
        CondRectangle *p = (CondRectangle *) r->cond;
        for (int i = 0; i < g.x_dim; ++i) {
            p->b1[i] = grid ? bound(s, g.c_min, g.c_max) : s.uniform(g.c_min, g.c_max);
            if (g.cond == COND_TYPE_HYPERRECTANGLE_CSR)
                p->b2[i] = grid ? w * (1 + (double) s.below(16)) / 16 : s.uniform(1e-3, w);
            else
                p->b2[i] = grid ? bound(s, g.c_min, g.c_max) : s.uniform(g.c_min, g.c_max);
        }
    } else if (g.cond == COND_TYPE_HYPERELLIPSOID) {
        CondEllipsoid *p = (CondEllipsoid *) r->cond;
        for (int i = 0; i < g.x_dim; ++i) {
            p->center[i] = grid ? bound(s, g.c_min, g.c_max) : s.uniform(g.c_min, g.c_max);
            p->spread[i] = grid ? w * (1 + (double) s.below(16)) / 16 : s.uniform(1e-3, w);
        }
    } else if (g.cond == COND_TYPE_TERNARY) {
        CondTernary *p = (CondTernary *) r->cond;
        for (int i = 0; i < p->length; ++i) p->string[i] = "01##"[s.below(4)];
    }
}
// a condition derived from another: same, smaller or larger per feature
static void derive(Src &s, const Cfg &g, const Cl *from, Cl *r)
{
    const int mode = s.range(0, 3); // 0 shrink or keep, 1 grow or keep, 2 mixed, 3 all equal
    if (g.cond == COND_TYPE_HYPERRECTANGLE_CSR || g.cond == COND_TYPE_HYPERRECTANGLE_UBR) {
        const CondRectangle *q = (const CondRectangle *) from->cond;
        CondRectangle *p = (CondRectangle *) r->cond;
        const bool csr = g.cond == COND_TYPE_HYPERRECTANGLE_CSR;
        for (int i = 0; i < g.x_dim; ++i) {
            double lo = csr ? q->b1[i] - q->b2[i] : std::min(q->b1[i], q->b2[i]);
            double hi = csr ? q->b1[i] + q->b2[i] : std::max(q->b1[i], q->b2[i]);
            p->b1[i] = q->b1[i], p->b2[i] = q->b2[i];
            if (mode == 3) {
                if (!csr && s.flip()) std::swap(p->b1[i], p->b2[i]); // unordered bounds
                continue;
            }
            const int dir = mode == 2 ? s.range(0, 1) : mode;
            const double w = hi - lo;
            for (double *e : {&lo, &hi}) {
                if (s.flip()) continue;
                const double d = w * (1 + (double) s.below(7)) / 16;
                *e += (e == &lo ? 1 : -1) * (dir == 0 ? d : -d);
            }
            if (csr) {
                p->b1[i] = (lo + hi) / 2;
                p->b2[i] = (hi - lo) / 2;
            } else {
                p->b1[i] = lo, p->b2[i] = hi;
                if (s.flip()) std::swap(p->b1[i], p->b2[i]);
            }
        }
    } else if (g.cond == COND_TYPE_HYPERELLIPSOID) {
        const CondEllipsoid *q = (const CondEllipsoid *) from->cond;
        CondEllipsoid *p = (CondEllipsoid *) r->cond;
        for (int i = 0; i < g.x_dim; ++i) {
            p->center[i] = q->center[i], p->spread[i] = q->spread[i];
            if (mode == 3 || s.flip()) continue;
            const int dir = mode == 2 ? s.range(0, 1) : mode;
            p->spread[i] *= dir == 0 ? s.uniform(0.1, 1) : s.uniform(1, 3);
            if (s.flip()) p->center[i] += s.uniform(-0.5, 0.5) * fabs(p->spread[i] - q->spread[i]);
        }
    } else if (g.cond == COND_TYPE_TERNARY) {
        const CondTernary *q = (const CondTernary *) from->cond;
        CondTernary *p = (CondTernary *) r->cond;
        for (int i = 0; i < p->length; ++i) {
            p->string[i] = q->string[i];
            if (mode == 3 || s.flip()) continue;
            const int dir = mode == 2 ? s.range(0, 1) : mode;
            if (dir == 1) p->string[i] = '#';
            else if (p->string[i] == '#') p->string[i] = "01"[s.below(2)];
        }
    }
}
// an input aimed at what the rule accepts: corners, faces, extremes, inside
static std::vector<double> inside(Src &s, const Cfg &g, const Cl *r)
{
    std::vector<double> v = gen_x(s, g);
    const int d = g.x_dim;
    if (g.cond == COND_TYPE_HYPERRECTANGLE_CSR || g.cond == COND_TYPE_HYPERRECTANGLE_UBR) {
        const CondRectangle *p = (const CondRectangle *) r->cond;
        const bool csr = g.cond == COND_TYPE_HYPERRECTANGLE_CSR;
        for (int i = 0; i < d; ++i) {
            const double lo = csr ? p->b1[i] - p->b2[i] : std::min(p->b1[i], p->b2[i]);
            const double hi = csr ? p->b1[i] + p->b2[i] : std::max(p->b1[i], p->b2[i]);
            const int k = s.range(0, 3);
            v[(size_t) i] = k == 0 ? lo : k == 1 ? hi : s.uniform(lo, hi);
        }
    } else if (g.cond == COND_TYPE_HYPERELLIPSOID) {
        const CondEllipsoid *p = (const CondEllipsoid *) r->cond;
        const int k = s.range(0, d - 1), sg = s.flip() ? 1 : -1;
        for (int i = 0; i < d; ++i) v[(size_t) i] = p->center[i] + (i == k ? sg * 0.999 * p->spread[i] : 0);
    } else if (g.cond == COND_TYPE_TERNARY) {
        const CondTernary *p = (const CondTernary *) r->cond;
        for (int i = 0; i < d; ++i) {
            int b = 0;
            for (int j = 0; j < g.bits; ++j) {
                const char ch = p->string[i * g.bits + j];
                b = 2 * b + (ch == '#' ? (int) s.below(2) : ch - '0');
            }
            v[(size_t) i] = (b + 0.5) / (double) (1 << g.bits);
        }
    }
    return v;
}
static void run(Src &s, Case &c)
{
    CfgOpt o;
    o.max_x = 5;
    o.preds = {PRED_TYPE_CONSTANT};
    o.pop_init = false;
    if (s.chance(6, 7)) o.conds = {COND_TYPE_HYPERRECTANGLE_CSR, COND_TYPE_HYPERRECTANGLE_UBR, COND_TYPE_TERNARY, COND_TYPE_HYPERELLIPSOID};
    Cfg g = gen_cfg(s, o);
    g.bits = std::min(g.bits, 3);
    Sys x(g);
    c.desc << g.str();
    const bool ordered = g.cond == COND_TYPE_HYPERRECTANGLE_CSR || g.cond == COND_TYPE_HYPERRECTANGLE_UBR ||
        g.cond == COND_TYPE_TERNARY || g.cond == COND_TYPE_HYPERELLIPSOID;
    std::vector<Cl *> r;
    const int n = s.range(2, 4);
    for (int i = 0; i < n; ++i) {
        r.push_back(fresh(x));
        if (ordered) {
            if (i == 0 || s.chance(1, 6)) {
                if (!s.chance(1, 4)) shape(s, g, r[(size_t) i]);
            } else
                derive(s, g, r[s.below((uint64_t) i)], r[(size_t) i]);
        }
        if (g.n_actions > 1 && g.act == ACT_TYPE_INTEGER && !g.rule_type() && s.flip())
            ((ActInteger *) r[(size_t) i]->act)->action = ((ActInteger *) r[0]->act)->action;
    }
    bool gen[4][4], some_yes = false, some_no = false;
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) {
            Cl *a = r[(size_t) i], *b = r[(size_t) j];
            const Snap s1 = snap_cl(x, a, S_RULE), s2 = snap_cl(x, b, S_RULE);
            gen[i][j] = cond_general(x, a, b);
            const bool full = cl_general(x, a, b);
            CHECK(diff(s1, snap_cl(x, a, S_RULE)).empty() && diff(s2, snap_cl(x, b, S_RULE)).empty(), "changed",
                  "asking about generality changes a rule");
            if (!ordered) {
                CHECK(!gen[i][j] && !full, "claims", "a representation without an order claims generality");
                continue;
            }
            if (i != j) (gen[i][j] ? some_yes : some_no) = true;
            // same action needed
            if (g.act == ACT_TYPE_INTEGER)
                CHECK(full == (gen[i][j] && ((ActInteger *) a->act)->action == ((ActInteger *) b->act)->action), "action",
                      "rule generality %d, condition generality %d, actions %d and %d", full, gen[i][j],
                      ((ActInteger *) a->act)->action, ((ActInteger *) b->act)->action);
            else
                CHECK(!full, "claims", "a rule with a network action claims generality");
            // exact containment
            bool amb = false;
            const bool ref = ref_cond_general(x, a, b, &amb);
            CHECK(amb || ref == gen[i][j], ref ? "missed" : "not-contained",
                  "rule %d is %sjudged as general as rule %d but by definition it is%s", i, gen[i][j] ? "" : "not ", j, ref ? "" : " not");
            if (i == j && g.cond != COND_TYPE_TERNARY)
                CHECK(gen[i][j], "reflexive", "a rule is not judged as general as itself");
            // behaviour
            if (gen[i][j] && !amb)
                for (int k = 0; k < 6; ++k) {
                    std::vector<double> v = inside(s, g, b);
                    if (cl_match(x, b, v.data()) && !cl_match(x, a, v.data())) {
                        double m = 0;
                        ref_match(x, a, v.data(), &m);
                        // interval ends as computed may round differently
                        if (g.cond == COND_TYPE_HYPERRECTANGLE_CSR) {
                            const CondRectangle *p = (const CondRectangle *) a->cond;
                            m = 1;
                            for (int e = 0; e < g.x_dim; ++e)
                                m = std::min(m, fabs(p->b2[e] - fabs(v[(size_t) e] - p->b1[e])));
                        }
                        CHECK(m < 1e-12, "escapes", "an input the specific rule accepts is refused by the rule judged more general");
                    }
                    c.count("probes");
                }
        }
    if (ordered && g.cond != COND_TYPE_HYPERELLIPSOID)
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
                for (int k = 0; k < n; ++k)
                    if (gen[i][j] && gen[j][k])
                        CHECK(gen[i][k], "transitive", "generality is not transitive");
    for (Cl *p : r) cl_free(x, p);
    c.count(condition_type_as_string(g.cond));
    c.nontrivial = !ordered || (some_yes && some_no);
}
const Property pbt::property = {
    "C15",
    "a case is two to four conditions, each random or derived from another by shrinking, growing or keeping features, compared pairwise and probed with corner and interior inputs of the more specific one; non-trivial: the representation has a generality order and both a general and a non-general pair occurred, or it has none",
    run, 100000, 4000000, 20};
