// C22: loss functions equal their definitions.
#include "common.hpp"
using namespace pbt;

static double gen_val(Src &s)
{
    switch (s.below(6)) {
        case 0: return (double) s.range(0, 1);
        case 1: return s.uniform(0, 1);
        case 2: return s.uniform(-10, 10);
        case 3: return (double) s.range(-3, 3);
        case 4: return s.uniform(-1e6, 1e6);
        default: return s.uniform(-1e-9, 1e-9);
    }
}
static double ref_loss(int type, const std::vector<double> &p, const std::vector<double> &y, double hd)
{
    long double e = 0;
    const size_t n = p.size();
    switch (type) {
        case LOSS_MAE:
            for (size_t i = 0; i < n; ++i) e += fabsl((long double) y[i] - p[i]);
            return (double) (e / n);
        case LOSS_MSE:
        case LOSS_RMSE:
            for (size_t i = 0; i < n; ++i) e += ((long double) y[i] - p[i]) * ((long double) y[i] - p[i]);
            e /= n;
            return (double) (type == LOSS_MSE ? e : sqrtl(e));
        case LOSS_LOG:
            for (size_t i = 0; i < n; ++i) e -= y[i] * logl(std::max(p[i], DBL_EPSILON));
            return (double) e;
        case LOSS_BINARY_LOG:
            for (size_t i = 0; i < n; ++i)
                e -= y[i] * logl(std::max(p[i], DBL_EPSILON)) +
                    (1 - y[i]) * logl(std::max(1 - p[i], DBL_EPSILON));
            return (double) e;
        case LOSS_ONEHOT: {
            size_t m = 0;
            for (size_t i = 1; i < n; ++i)
                if (p[i] > p[m]) m = i;
            return y[m] == 1 ? 0 : 1;
        }
        default:
            for (size_t i = 0; i < n; ++i) {
                long double a = fabsl((long double) y[i] - p[i]);
                e += a <= hd ? 0.5L * a * a : hd * (a - 0.5L * hd);
            }
            return (double) (e / n);
    }
}
static void run(Src &s, Case &c)
{
    static const int types[] = {LOSS_MAE, LOSS_MSE, LOSS_RMSE, LOSS_LOG, LOSS_BINARY_LOG, LOSS_ONEHOT, LOSS_HUBER};
    static const char *names[] = {"mae", "mse", "rmse", "log", "binary_log", "onehot", "huber"};
    const int k = (int) s.below(7);
    const int type = types[k];
    const int n = s.chance(1, 20) ? s.range(7, 150) : s.range(1, 6);
    Sys x(1, n, 1);
    std::vector<double> p((size_t) n), y((size_t) n);
    const double hd = s.chance(1, 4) ? 0 : s.real(0.01, 3);
    param_set_huber_delta(x, hd);
    // targets that make sense for the loss; predictions unrestricted
    const int mode = s.range(0, 3);
    for (int i = 0; i < n; ++i) {
        p[(size_t) i] = (type == LOSS_LOG || type == LOSS_BINARY_LOG) && s.chance(3, 4) ? s.real(0, 1) : gen_val(s);
        y[(size_t) i] = gen_val(s);
        if (mode == 1) y[(size_t) i] = p[(size_t) i];
        if (mode == 2 && s.flip()) y[(size_t) i] = p[(size_t) i] + (s.flip() ? hd : -hd);
    }
    if (type == LOSS_LOG || type == LOSS_ONEHOT) {
        std::fill(y.begin(), y.end(), 0);
        y[s.below((uint64_t) n)] = 1;
        if (mode == 1) p = y;
    }
    if (type == LOSS_BINARY_LOG) {
        for (double &e : y) e = s.flip();
        if (mode == 1) p = y;
    }
    // select by name or by number
    const bool by_name = s.flip();
    if (by_name) {
        const int r = param_set_loss_func_string(x, names[k]);
        CHECK(r != PARAM_INVALID, "name-refused", "loss name %s refused", names[k]);
    } else {
        param_set_loss_func(x, type);
    }
    CHECK(x->LOSS_FUNC == type, "selection", "selected %s, LOSS_FUNC=%d", names[k], x->LOSS_FUNC);
    CHECK(!strcmp(loss_type_as_string(type), names[k]), "name", "name of %d is %s", type, loss_type_as_string(type));
    CHECK(loss_type_as_int(names[k]) == type, "name", "number of %s is %d", names[k], loss_type_as_int(names[k]));
    // near misses of names must be refused
    {
        std::string bad = names[k];
        switch (s.below(3)) {
            case 0: bad += "x"; break;
            case 1: bad = bad.substr(0, bad.size() - 1); break;
            default: bad[s.below(bad.size())] = 'Z';
        }
        bool legal = false;
        for (const char *q : names) legal |= bad == q;
        if (!legal) {
            CHECK(loss_type_as_int(bad.c_str()) == LOSS_INVALID, "bad-name", "accepted loss name '%s'", bad.c_str());
            CHECK(param_set_loss_func_string(x, bad.c_str()) == PARAM_INVALID, "bad-name", "accepted loss name '%s'", bad.c_str());
            CHECK(x->LOSS_FUNC == type, "bad-name", "refused name changed the loss");
        }
    }
    const double want = ref_loss(type, p, y, hd);
    const std::vector<double> p0 = p, y0 = y;
    const double got = x->loss_ptr(x, p.data(), y.data());
    c.desc << names[k] << " n=" << n << " hd=" << hd << " p0=" << p[0] << " y0=" << y[0] << " -> " << got;
    CHECK(close(got, want, 1e-9, 1e-12), "value", "%s: got %.17g want %.17g (n=%d hd=%g p0=%g y0=%g)", names[k], got, want, n, hd, p[0], y[0]);
    CHECK(p == p0 && y == y0, "mutated", "loss modified its inputs");
    const bool legal_range = type != LOSS_LOG && type != LOSS_BINARY_LOG;
    bool in01 = true;
    for (double e : p) in01 &= e >= 0 && e <= 1;
    if (legal_range || in01) {
        CHECK(std::isfinite(got), "finite", "%s loss is %g", names[k], got);
        CHECK(got >= -1e-12, "negative", "%s loss is %g", names[k], got);
    }
    if (mode == 1) CHECK(fabs(got) <= 1e-12 * n, "perfect", "%s loss of a perfect prediction is %g", names[k], got);
    // permutation invariance (one-hot: only when the maximum is unique)
    bool unique = true;
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < i; ++j) unique &= p[(size_t) i] != p[(size_t) j];
    if (n > 1 && (type != LOSS_ONEHOT || unique)) {
        const size_t r = 1 + s.below((uint64_t) n - 1);
        std::rotate(p.begin(), p.begin() + (long) r, p.end());
        std::rotate(y.begin(), y.begin() + (long) r, y.end());
        const double rot = x->loss_ptr(x, p.data(), y.data());
        CHECK(close(rot, got, 1e-9, 1e-9), "permutation", "%s: %.17g vs %.17g after permuting", names[k], got, rot);
    }
    c.nontrivial = got != 0;
    c.count(names[k]);
}
const Property pbt::property = {
    "C22", "a case is one loss function with random prediction/target vectors (1-6, sometimes up to 150 outputs), thresholds and names; non-trivial: the loss is non-zero",
    run, 200000, 4000000, 10};
