// C04: predicting and scoring are read-only and repeatable.
#include "ref.hpp"
using namespace pbt;

static void run(Src &s, Case &c)
{
    CfgOpt o;
    o.mode = 0;
    o.recurrent = false;
    o.stateful = false;
    o.net_level = 1 + (int) s.chance(1, 6);
    Cfg g = gen_cfg(s, o);
    auto d = gen_data(s, g, s.chance(1, 50) && !g.neural() ? s.range(100, 600) : s.range(1, 10));
    Sys x(g);
    c.desc << g.str() << " rows=" << d->in.n_samples;
    train(x, *d, s, s.range(0, g.neural() ? 15 : 60));
    if (s.chance(1, 4)) { // score with another loss (one-hot targets)
        g.loss = s.pick(std::vector<int>{LOSS_LOG, LOSS_BINARY_LOG, LOSS_ONEHOT});
        param_set_loss_func(x, g.loss);
        for (int i = 0; i < d->in.n_samples; ++i) {
            const std::vector<double> t = gen_y(s, g);
            memcpy(d->yrow(i), t.data(), sizeof(double) * t.size());
        }
    }
    std::vector<double> cov((size_t) g.y_dim);
    for (double &e : cov) e = s.flip() ? 0 : s.uniform(-2, 2);
    const int n = d->in.n_samples, y = g.y_dim;
    const int what = S_RULE | S_UPD;
    const auto before = snap_set(x, x->pset, what);
    const int time = x->time;
    const double error = x->error;
    std::vector<const Cl *> ptr = rules(x->pset);
    std::vector<double> p0((size_t) (n * y)), p1((size_t) (n * y)), loss;
    auto unchanged = [&](const char *op) {
        std::vector<const Cl *> q = rules(x->pset);
        CHECK(q == ptr, "population-changed", "%s changed the population from %zu to %zu rules", op, ptr.size(), q.size());
        const std::string df = diff_sets(before, snap_set(x, x->pset, what));
        CHECK(df.empty(), "rule-changed", "%s changed a rule: %s", op, df.c_str());
        CHECK(x->time == time, "clock", "%s moved the clock from %d to %d", op, time, x->time);
        CHECK(same(x->error, error), "error-estimate", "%s moved the system error from %g to %g", op, error, x->error);
        check_population(x);
    };
    param_set_explore(x, s.flip()); // as left behind by fitting, or by predicting
    xcs_supervised_predict(x, d->x.data(), p0.data(), n, cov.data());
    unchanged("predict");
    for (int i = 0; i < n; ++i) loss.push_back(ref_loss(x, &p0[(size_t) (i * y)], d->yrow(i)));
    auto agree = [&](const char *op) {
        for (size_t i = 0; i < p0.size(); ++i)
            CHECK(same(p0[i], p1[i]), "not-repeatable", "%s: value %zu was %.17g, now %.17g", op, i, p0[i], p1[i]);
    };
    for (int k = s.range(1, 5); k > 0; --k) {
        std::fill(p1.begin(), p1.end(), 99);
        param_set_explore(x, s.flip());
        switch (s.below(6)) {
            case 0:
                xcs_supervised_predict(x, d->x.data(), p1.data(), n, cov.data());
                unchanged("second predict");
                agree("same batch again");
                break;
            case 1: {
                const int m = s.range(0, n);
                xcs_supervised_predict(x, d->x.data(), p1.data(), m, cov.data());
                xcs_supervised_predict(x, d->x.data() + m * g.x_dim, p1.data() + m * y, n - m, cov.data());
                unchanged("split predict");
                agree("split batch");
                break;
            }
            case 2: {
                for (int i = n - 1; i >= 0; --i) xcs_supervised_predict(x, d->xrow(i), p1.data() + i * y, 1, cov.data());
                unchanged("reversed predict");
                agree("one by one in reverse");
                break;
            }
            case 3: {
                const double sc = xcs_supervised_score(x, &d->in, cov.data());
                unchanged("score");
                long double e = 0;
                for (double l : loss) e += l;
                CHECK(close(sc, (double) (e / n), 1e-9, 1e-12), "score", "score %.12g, mean loss %.12g", sc, (double) (e / n));
                break;
            }
            case 4: {
                const int N = s.range(1, n + 2);
                const double sc = xcs_supervised_score_n(x, &d->in, N, cov.data());
                unchanged("score_n");
                if (N > n) {
                    long double e = 0;
                    for (double l : loss) e += l;
                    CHECK(close(sc, (double) (e / n), 1e-9, 1e-12), "score-all", "score of all rows %.12g, mean loss %.12g", sc, (double) (e / n));
                } else {
                    // attainable as a mean of N rows (with repetition)
                    std::set<double> sums = {0};
                    for (int i = 0; i < N && sums.size() < 4000 && n <= 10; ++i) {
                        std::set<double> nx;
                        for (double a : sums)
                            for (double l : loss) nx.insert(a + l);
                        sums.swap(nx);
                        if (i == N - 1) {
                            bool ok = false;
                            for (double a : sums) ok |= close(sc, a / N, 1e-9, 1e-12);
                            CHECK(ok, "score-sample", "score %.12g of %d rows is not the mean loss of any %d rows", sc, N, N);
                        }
                    }
                    const double lo = *std::min_element(loss.begin(), loss.end()), hi = *std::max_element(loss.begin(), loss.end());
                    CHECK(sc >= lo - 1e-9 * (1 + fabs(lo)) && sc <= hi + 1e-9 * (1 + fabs(hi)), "score-sample-range", "score %g outside [%g,%g]", sc, lo, hi);
                }
                c.count("subsample");
                break;
            }
            default: {
                // other inputs in between
                for (int i = 0; i < 3; ++i) {
                    std::vector<double> v = gen_x(s, g), q((size_t) y);
                    xcs_supervised_predict(x, v.data(), q.data(), 1, cov.data());
                }
                unchanged("predict of other inputs");
                xcs_supervised_predict(x, d->x.data(), p1.data(), n, cov.data());
                agree("after other inputs");
            }
        }
    }
    // each row is as likely as any other to be drawn for a subsample
    if (s.chance(1, 30)) {
        std::vector<double> t = loss;
        std::sort(t.begin(), t.end());
        bool distinct = true;
        for (size_t i = 1; i < t.size(); ++i) distinct &= t[i] - t[i - 1] > 1e-6 * (1 + fabs(t[i]));
        if (distinct && n > 1) {
            const int K = 400;
            std::vector<int> hits((size_t) n);
            for (int k = 0; k < K; ++k) {
                const double sc = xcs_supervised_score_n(x, &d->in, 1, cov.data());
                for (int i = 0; i < n; ++i)
                    if (close(sc, loss[(size_t) i], 1e-9, 1e-12)) ++hits[(size_t) i];
            }
            long late = 0;
            for (int i = n / 2; i < n; ++i) late += hits[(size_t) i];
            const double half = K * (double) (n - n / 2) / n;
            CHECK(fabs((double) late - half) <= 9 * sqrt(K / 4.0), "sample-uniform", "the later half of %d rows was drawn %ld times in %d", n, late, K);
            for (int i = 0; i < n; ++i) {
                const double e = (double) K / n, sd = sqrt(e * (1 - 1.0 / n));
                CHECK(fabs(hits[(size_t) i] - e) <= 8 * sd + 9, "sample-uniform", "row %d was drawn %d times in %d from %d rows", i, hits[(size_t) i], K, n);
            }
            c.count("uniformity");
        }
    }
    c.nontrivial = !ptr.empty();
    c.count(condition_type_as_string(g.cond));
    c.count(prediction_type_as_string(g.pred));
}
const Property pbt::property = {
    "C04",
    "a case is a random supervised configuration without rule memory, a training history and a random sequence of prediction and scoring requests; non-trivial: the population is not empty",
    run, 24000, 800000, 20};
