// C18: constant, NLMS and RLS predictors follow their learning rules.
#include "ref.hpp"
using namespace pbt;
typedef long double L;

static bool quad(int t) { return t == PRED_TYPE_NLMS_QUADRATIC || t == PRED_TYPE_RLS_QUADRATIC; }
static bool rls(int t) { return t == PRED_TYPE_RLS_LINEAR || t == PRED_TYPE_RLS_QUADRATIC; }
static bool nlms(int t) { return t == PRED_TYPE_NLMS_LINEAR || t == PRED_TYPE_NLMS_QUADRATIC; }
static std::vector<L> features(const Cfg &g, const std::vector<double> &x)
{
    std::vector<L> f = {g.p_x0};
    for (double e : x) f.push_back(e);
    if (quad(g.pred))
        for (size_t i = 0; i < x.size(); ++i)
            for (size_t j = i; j < x.size(); ++j) f.push_back((L) x[i] * x[j]);
    return f;
}
static double *weights(const Cfg &g, Cl *c, int *n)
{
    if (rls(g.pred)) {
        *n = ((PredRLS *) c->pred)->n;
        return ((PredRLS *) c->pred)->weights;
    }
    *n = ((PredNLMS *) c->pred)->n;
    return ((PredNLMS *) c->pred)->weights;
}
// positive definite solve
static bool solve(std::vector<L> a, std::vector<L> b, int n, std::vector<L> &x)
{
    for (int i = 0; i < n; ++i) {
        int p = i;
        for (int k = i + 1; k < n; ++k)
            if (fabsl(a[(size_t) (k * n + i)]) > fabsl(a[(size_t) (p * n + i)])) p = k;
        if (a[(size_t) (p * n + i)] == 0) return false;
        for (int k = 0; k < n; ++k) std::swap(a[(size_t) (i * n + k)], a[(size_t) (p * n + k)]);
        std::swap(b[(size_t) i], b[(size_t) p]);
        for (int k = i + 1; k < n; ++k) {
            const L f = a[(size_t) (k * n + i)] / a[(size_t) (i * n + i)];
            for (int j = i; j < n; ++j) a[(size_t) (k * n + j)] -= f * a[(size_t) (i * n + j)];
            b[(size_t) k] -= f * b[(size_t) i];
        }
    }
    x.assign((size_t) n, 0);
    for (int i = n - 1; i >= 0; --i) {
        L v = b[(size_t) i];
        for (int j = i + 1; j < n; ++j) v -= a[(size_t) (i * n + j)] * x[(size_t) j];
        x[(size_t) i] = v / a[(size_t) (i * n + i)];
    }
    return true;
}
static void run(Src &s, Case &c)
{
    CfgOpt o;
    o.conds = {COND_TYPE_DUMMY};
    o.preds = {PRED_TYPE_CONSTANT, PRED_TYPE_NLMS_LINEAR, PRED_TYPE_NLMS_QUADRATIC, PRED_TYPE_RLS_LINEAR, PRED_TYPE_RLS_QUADRATIC};
    o.mode = 0;
    o.max_x = 5;
    o.pop_init = false;
    Cfg g = gen_cfg(s, o);
    g.loss = LOSS_MAE;
    g.beta = s.chance(1, 3) ? s.real(0.01, 1) : g.beta;
    g.p_x0 = s.pick(std::vector<double>{1, 1, 0.5, 0, 2, -1});
    g.p_evolve_eta = s.flip();
    g.p_eta_min = s.pick(std::vector<double>{0, 0.001, 0.1});
    g.p_eta = s.real(g.p_eta_min, 1);
    g.p_lambda = s.chance(2, 3) ? 1 : s.real(0.5, 1);
    g.p_scale = s.pick(std::vector<double>{1000, 1, 10, 100});
    Sys x(g);
    c.desc << g.str() << " x0=" << g.p_x0 << " eta=" << g.p_eta << " lambda=" << g.p_lambda << " scale=" << g.p_scale;
    Cl *r = (Cl *) malloc(sizeof(Cl));
    cl_init(x, r, 1, 0);
    cl_rand(x, r);
    const int yd = g.y_dim, xd = g.x_dim;
    const int nf = (int) features(g, std::vector<double>((size_t) xd)).size();
    // twins learning one output each
    std::vector<std::unique_ptr<Sys>> tw;
    std::vector<Cl *> tc;
    const bool twins = yd > 1 && s.flip();
    if (twins)
        for (int k = 0; k < yd; ++k) {
            Cfg h = g;
            h.y_dim = 1;
            tw.push_back(std::make_unique<Sys>(h));
            Cl *q = (Cl *) malloc(sizeof(Cl));
            cl_init(*tw.back(), q, 1, 0);
            cl_rand(*tw.back(), q);
            if (nlms(g.pred)) ((PredNLMS *) q->pred)->eta = ((PredNLMS *) r->pred)->eta;
            tc.push_back(q);
        }
    int n = 0;
    // a new predictor predicts its offset only
    if (g.pred == PRED_TYPE_CONSTANT) {
        for (int i = 0; i < yd; ++i) CHECK(r->prediction[i] == 0, "init", "new constant prediction %g", r->prediction[i]);
    } else {
        const double *w = weights(g, r, &n);
        CHECK(n == nf, "features", "%d weights for each output, %d features", n, nf);
        for (int i = 0; i < yd * n; ++i)
            CHECK(w[i] == (i % n == 0 ? g.p_x0 : 0), "init", "initial weight %d is %g", i, w[i]);
        if (nlms(g.pred)) {
            const double eta = ((PredNLMS *) r->pred)->eta;
            if (g.p_evolve_eta) CHECK(eta >= g.p_eta_min && eta <= g.p_eta, "eta", "learning rate %g outside [%g,%g]", eta, g.p_eta_min, g.p_eta);
            else CHECK(eta == g.p_eta, "eta", "learning rate %g, configured %g", eta, g.p_eta);
        }
    }
    const int steps = s.range(1, 24);
    std::vector<std::vector<double>> hx, hy;
    std::vector<double> model((size_t) yd, 0.0);
    bool mutated = false, big = false;
    for (int t = 0; t < steps; ++t) {
        std::vector<double> v = s.chance(1, 12) ? std::vector<double>((size_t) xd, 0.0) : gen_x(s, g);
        std::vector<double> y((size_t) yd);
        for (double &e : y) e = s.real(-2, 2);
        const std::vector<double> v0 = v, y0 = y;
        const std::vector<L> f = features(g, v);
        // prediction
        const bool cur = s.chance(2, 3);
        const Snap before = snap_cl(x, r, S_PRED | S_STATS | S_COND | S_MU);
        if (!cur) { // predictions for another input in between
            std::vector<double> u = gen_x(s, g);
            cl_predict(x, r, u.data());
        }
        std::vector<double> pred(r->prediction, r->prediction + yd);
        if (cur || s.flip()) {
            const double *p = cl_predict(x, r, v.data());
            pred.assign(p, p + yd);
            const Snap after = snap_cl(x, r, S_PRED | S_STATS | S_COND | S_MU);
            const std::string d = diff(before, after);
            CHECK(d.empty(), "predict-changes", "predicting changed the predictor: %s", d.c_str());
        }
        std::vector<double> want((size_t) yd);
        if (g.pred == PRED_TYPE_CONSTANT) want = model;
        else {
            const double *w = weights(g, r, &n);
            double tol = 0;
            for (int k = 0; k < yd; ++k) {
                L a = 0;
                for (int i = 0; i < n; ++i) a += w[k * n + i] * f[(size_t) i], tol += fabs((double) (w[k * n + i] * f[(size_t) i]));
                want[(size_t) k] = (double) a;
            }
            if (cur)
                for (int k = 0; k < yd; ++k)
                    CHECK(fabs(pred[(size_t) k] - want[(size_t) k]) <= 1e-12 * (1 + tol), "predict", "output %d predicted as %.17g, weighted sum %.17g", k, pred[(size_t) k], want[(size_t) k]);
        }
        if (g.pred == PRED_TYPE_CONSTANT)
            for (int k = 0; k < yd; ++k)
                CHECK(close(r->prediction[k], want[(size_t) k], 1e-9), "predict", "constant prediction %g, expected %g", r->prediction[k], want[(size_t) k]);
        if (s.chance(1, 5)) continue; // predict only
        // update
        std::vector<double> w0, m0;
        double eta = 0;
        if (g.pred != PRED_TYPE_CONSTANT) {
            const double *w = weights(g, r, &n);
            w0.assign(w, w + yd * n);
        }
        if (rls(g.pred)) m0.assign(((PredRLS *) r->pred)->matrix, ((PredRLS *) r->pred)->matrix + n * n);
        if (nlms(g.pred)) eta = ((PredNLMS *) r->pred)->eta;
        cl_update(x, r, v.data(), y.data(), 1, cur);
        CHECK(v == v0 && y == y0, "input", "an update changed its input");
        hx.push_back(v);
        hy.push_back(y);
        const int ex = r->exp;
        if (g.pred == PRED_TYPE_CONSTANT) {
            for (int k = 0; k < yd; ++k) {
                double &m = model[(size_t) k];
                if (ex * g.beta < 1) {
                    L sum = 0;
                    for (auto &e : hy) sum += e[(size_t) k];
                    m = (double) (sum / (L) hy.size());
                } else
                    m += g.beta * (y[(size_t) k] - m), big = true;
                CHECK(close(r->prediction[k], m, 1e-9, 1e-10), "constant", "after %d updates the constant prediction is %.12g, expected %.12g", ex, r->prediction[k], m);
            }
        } else if (nlms(g.pred)) {
            const double *w = weights(g, r, &n);
            L norm = (L) g.p_x0 * g.p_x0;
            for (double e : v) norm += (L) e * e;
            for (int k = 0; k < yd; ++k)
                for (int i = 0; i < n; ++i) {
                    L e = w0[(size_t) (k * n + i)];
                    if (norm > 0) e += (L) eta * (y[(size_t) k] - (L) want[(size_t) k]) / norm * f[(size_t) i];
                    CHECK(close(w[k * n + i], (double) e, 1e-9, 1e-10), "nlms", "weight %d of output %d is %.12g, expected %.12g", i, k, w[k * n + i], (double) e);
                }
        } else {
            const double *w = weights(g, r, &n), *m = ((PredRLS *) r->pred)->matrix;
            std::vector<L> k1((size_t) n, 0);
            L div = g.p_lambda, scale = 0;
            for (double e : m0) scale = std::max(scale, fabsl((L) e));
            for (int i = 0; i < n; ++i)
                for (int j = 0; j < n; ++j) k1[(size_t) i] += (L) m0[(size_t) (i * n + j)] * f[(size_t) j];
            for (int i = 0; i < n; ++i) div += f[(size_t) i] * k1[(size_t) i];
            if (div > 1e-3L) {
                L fm = 0, werr = 0;
                for (L e : f) fm = std::max(fm, fabsl(e));
                for (int k = 0; k < yd; ++k) {
                    werr = fabsl(y[(size_t) k] - (L) want[(size_t) k]);
                    for (int i = 0; i < n; ++i) {
                        const L e = w0[(size_t) (k * n + i)] + k1[(size_t) i] / div * (y[(size_t) k] - (L) want[(size_t) k]);
                        const L tol = 1e-10L + 1e-9L * fabsl(e) + 1e-12L * n * scale * fm / div * (1 + werr) * (1 + n * n * scale * fm * fm / div);
                        CHECK(fabsl(w[k * n + i] - e) <= tol, "rls", "weight %d of output %d is %.12g, expected %.12g", i, k, w[k * n + i], (double) e);
                    }
                }
                for (int i = 0; i < n; ++i)
                    for (int j = 0; j < n; ++j) {
                        L e = 0;
                        for (int q = 0; q < n; ++q) e += ((i == q ? 1 : 0) - k1[(size_t) i] / div * f[(size_t) q]) * m0[(size_t) (q * n + j)];
                        e /= g.p_lambda;
                        CHECK(fabsl(m[i * n + j] - e) <= 1e-9L * (scale / g.p_lambda) * (1 + n * n * scale * fm * fm / div * 1e-4L) + 1e-12L, "rls-matrix", "matrix element %d,%d is %.12g, expected %.12g", i, j, m[i * n + j], (double) e);
                    }
            }
        }
        if (twins)
            for (int k = 0; k < yd; ++k) {
                cl_predict(*tw[(size_t) k], tc[(size_t) k], v.data());
                cl_update(*tw[(size_t) k], tc[(size_t) k], v.data(), &y[(size_t) k], 1, true);
                if (g.pred == PRED_TYPE_CONSTANT)
                    CHECK(close(r->prediction[k], tc[(size_t) k]->prediction[0]), "outputs", "output %d differs from learning it alone", k);
                else {
                    int m;
                    const double *w = weights(g, r, &n), *u = weights(g, tc[(size_t) k], &m);
                    for (int i = 0; i < n; ++i)
                        CHECK(close(w[k * n + i], u[i], 1e-6, 1e-7), "outputs", "weight %d of output %d is %g but %g when the output is learned alone", i, k, w[k * n + i], u[i]);
                }
            }
        if (nlms(g.pred) && s.chance(1, 8)) {
            const double e0 = ((PredNLMS *) r->pred)->eta;
            const Snap wb = snap_cl(x, r, S_STATS);
            std::vector<double> wa(((PredNLMS *) r->pred)->weights, ((PredNLMS *) r->pred)->weights + yd * nf);
            const bool rep = pred_mutate(x, r);
            const double e1 = ((PredNLMS *) r->pred)->eta;
            CHECK(rep == (e0 != e1), "mutate-report", "mutation of the learning rate reports %d, rate %g to %g", rep, e0, e1);
            if (!g.p_evolve_eta) CHECK(e0 == e1, "mutate-fixed", "a fixed learning rate was mutated from %g to %g", e0, e1);
            else CHECK(e1 >= g.p_eta_min && e1 <= g.p_eta, "mutate-range", "learning rate %g outside [%g,%g]", e1, g.p_eta_min, g.p_eta);
            CHECK(wa == std::vector<double>(((PredNLMS *) r->pred)->weights, ((PredNLMS *) r->pred)->weights + yd * nf), "mutate-weights", "mutation changed the weights");
            for (Cl *q : tc) ((PredNLMS *) q->pred)->eta = e1;
            mutated = true;
        }
    }
    // closed form of recursive least squares
    if (rls(g.pred) && !hx.empty() && g.p_scale <= 1000 && n <= 10) {
        const int m = (int) hx.size();
        for (int k = 0; k < yd; ++k) {
            std::vector<L> a((size_t) (n * n), 0), b((size_t) n, 0), w;
            for (int t = 0; t < m; ++t) {
                const std::vector<L> f = features(g, hx[(size_t) t]);
                const L q = powl(g.p_lambda, m - 1 - t);
                for (int i = 0; i < n; ++i) {
                    b[(size_t) i] += q * f[(size_t) i] * hy[(size_t) t][(size_t) k];
                    for (int j = 0; j < n; ++j) a[(size_t) (i * n + j)] += q * f[(size_t) i] * f[(size_t) j];
                }
            }
            const L pr = powl(g.p_lambda, m) / g.p_scale;
            for (int i = 0; i < n; ++i) a[(size_t) (i * n + i)] += pr;
            b[0] += pr * g.p_x0;
            int nn;
            const double *w1 = weights(g, r, &nn);
            if (solve(a, b, n, w))
                for (int i = 0; i < n; ++i)
                    CHECK(fabsl(w[(size_t) i] - w1[k * n + i]) <= 1e-4L * (1 + fabsl(w[(size_t) i])), "rls-closed-form",
                          "after %d updates weight %d is %.9g, the regularised least squares solution is %.9g", m, i, w1[k * n + i], (double) w[(size_t) i]);
        }
        c.count("closed form");
    }
    for (size_t k = 0; k < tc.size(); ++k) cl_free(*tw[k], tc[k]);
    cl_free(x, r);
    c.count(prediction_type_as_string(g.pred));
    if (mutated) c.count("rate mutated");
    if (big) c.count("past running mean");
    c.nontrivial = hx.size() >= 3;
}
const Property pbt::property = {
    "C18",
    "a case is one predictor under random settings fed a stream of up to 24 inputs and targets with predictions in between, compared step by step with the update equations, at the end with the closed-form solution (RLS), and output by output with single-output twins; non-trivial: at least three updates",
    run, 60000, 2500000, 20};
