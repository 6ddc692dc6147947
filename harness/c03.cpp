// C03: system prediction.
#include "ref.hpp"
using namespace pbt;

static void run(Src &s, Case &c)
{
    CfgOpt o;
    o.stochastic = false;
    o.net_level = 1;
    Cfg g = gen_cfg(s, o);
    auto d = gen_data(s, g, s.range(1, 8));
    Sys x(g);
    c.desc << g.str();
    train(x, *d, s, s.range(0, g.neural() ? 10 : 30));
    add_rules(x, g, s, s.range(0, 6));
    if (s.chance(2, 3)) scramble(x, s, 3);
    x->POP_SIZE = x->pset.num + 20;
    size_t best = 0;
    int uncovered = 0;
    for (int k = s.range(1, 4); k > 0; --k) {
        const std::vector<double> v = s.flip() ? std::vector<double>(d->xrow(0), d->xrow(0) + g.x_dim) : gen_x(s, g);
        const bool cover = s.chance(1, 2);
        const bool rl = g.n_actions > 1;
        x->explore = false;
        clset_init(&x->mset);
        clset_init(&x->kset);
        clset_match(x, v.data(), cover);
        if (s.chance(1, 4)) // make ties likely
            for (Clist *i = x->mset.list; i; i = i->next)
                if (g.pred == PRED_TYPE_CONSTANT)
                    for (int j = 0; j < g.y_dim; ++j) i->cl->prediction[j] = s.range(-1, 1);
        if (s.chance(1, 3)) // leave stale values behind
            for (int i = 0; i < x->pa_size; ++i) x->pa[i] = x->nr[i] = 7;
        if (g.pred != PRED_TYPE_CONSTANT)
            for (Clist *i = x->mset.list; i; i = i->next)
                for (int j = 0; j < g.y_dim; ++j) i->cl->prediction[j] = 1e3;
        pa_build(x, v.data());
        const std::vector<const Cl *> ms = rules(x->mset);
        best = std::max(best, ms.size());
        std::vector<bool> adv((size_t) g.n_actions);
        double mx = -INFINITY;
        int n_adv = 0;
        for (int a = 0; a < g.n_actions; ++a) {
            for (int j = 0; j < g.y_dim; ++j) {
                long double num = 0, den = 0, mag = 0;
                for (const Cl *r : ms)
                    if (r->action == a) {
                        num += (long double) r->fit * r->prediction[j];
                        mag += fabsl((long double) r->fit * r->prediction[j]);
                        den += r->fit;
                    }
                if (den > 0) adv[(size_t) a] = true;
                const double e = den > 0 ? (double) (num / den) : 0;
                const double got = x->pa[a * g.y_dim + j];
                CHECK(fabs(got - e) <= 1e-10 * (double) (den > 0 ? mag / den : 0) + 1e-13, "weighted-mean",
                      "prediction for action %d output %d is %.12g, fitness-weighted mean %.12g of %zu rules", a, j, got, e, ms.size());
                mx = std::max(mx, got);
            }
            n_adv += adv[(size_t) a];
        }
        if (!g.has_state()) // each rule contributed its own prediction for this input
            for (const Cl *r : ms) {
                const std::vector<double> was(r->prediction, r->prediction + g.y_dim);
                cl_predict(x, r, v.data());
                for (int j = 0; j < g.y_dim; ++j)
                    CHECK(close(was[(size_t) j], r->prediction[j]), "rule-prediction", "rule contributed %g but predicts %g", was[(size_t) j], r->prediction[j]);
            }
        if (!ms.empty()) {
            if (ms.size() > 1) c.count("several_rules");
            CHECK(same(pa_best_val(x), mx), "best-value", "best value %g, maximum of the array %g", pa_best_val(x), mx);
            if (rl) {
                std::vector<int> seen((size_t) g.n_actions), seen2((size_t) g.n_actions);
                const int draws = s.chance(1, 8) ? 300 : 4;
                for (int i = 0; i < draws; ++i) {
                    const int a = pa_best_action(x);
                    CHECK(a >= 0 && a < g.n_actions, "best-action-range", "greedy action %d", a);
                    CHECK(same(x->pa[a], mx), "best-action", "greedy action %d has %g, maximum %g", a, x->pa[a], mx);
                    seen[(size_t) a]++;
                    if (n_adv) {
                        const int b = pa_rand_action(x);
                        CHECK(b >= 0 && b < g.n_actions && adv[(size_t) b], "rand-action", "exploring action %d has no advocate", b);
                        seen2[(size_t) b]++;
                    }
                }
                for (int a = 0; a < g.n_actions; ++a) {
                    CHECK(same(pa_val(x, a), x->pa[a]), "value", "value of action %d is %g, entry %g", a, pa_val(x, a), x->pa[a]);
                    if (draws == 300) {
                        if (same(x->pa[a], mx)) CHECK(seen[(size_t) a] > 0, "tie-starved", "action %d ties for best but is never chosen in 300 draws", a);
                        if (adv[(size_t) a]) CHECK(seen2[(size_t) a] > 0, "explore-starved", "advocated action %d is never explored in 300 draws", a);
                    }
                }
            }
        }
        clset_kill(x, &x->kset);
        clset_free(&x->mset);
    }
    // batch prediction with and without a fallback
    if (g.n_actions == 1 && !g.has_state()) {
        const int n = d->in.n_samples;
        std::vector<double> out((size_t) (n * g.y_dim)), cov((size_t) g.y_dim);
        for (double &e : cov) e = s.uniform(-5, 5);
        xcs_supervised_predict(x, d->x.data(), out.data(), n, cov.data());
        for (int i = 0; i < n; ++i) {
            std::vector<long double> num((size_t) g.y_dim), mag((size_t) g.y_dim);
            long double den = 0;
            int m = 0;
            bool amb = false;
            for (const Cl *r : rules(x->pset)) {
                double mg;
                const bool y = ref_match(x, r, d->xrow(i), &mg);
                amb |= mg < 1e-9;
                if (!y) continue;
                ++m;
                cl_predict(x, r, d->xrow(i));
                for (int j = 0; j < g.y_dim; ++j) {
                    num[(size_t) j] += (long double) r->fit * r->prediction[j];
                    mag[(size_t) j] += fabsl((long double) r->fit * r->prediction[j]);
                }
                den += r->fit;
            }
            if (amb || (m && den <= 0)) continue;
            for (int j = 0; j < g.y_dim; ++j) {
                const double e = m ? (double) (num[(size_t) j] / den) : cov[(size_t) j];
                const double got = out[(size_t) (i * g.y_dim + j)];
                CHECK(fabs(got - e) <= (m ? 1e-10 * (double) (mag[(size_t) j] / den) + 1e-13 : 0), m ? "batch" : "batch-cover",
                      "row %d output %d predicted %.12g, expected %.12g (%d matching rules)", i, j, got, e, m);
            }
            if (!m) ++uncovered;
            best = std::max(best, (size_t) m);
        }
        if (uncovered) c.count("fallback_rows", uncovered);
    }
    c.nontrivial = best >= 2 || uncovered > 0;
    c.count(prediction_type_as_string(g.pred));
}
const Property pbt::property = {
    "C03",
    "a case is a random configuration, trained or random population with arbitrary statistics, and several inputs and a batch; non-trivial: two or more rules contributed to one prediction, or a row used the fallback value",
    run, 40000, 1500000, 20};
