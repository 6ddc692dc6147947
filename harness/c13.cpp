// C13: results are a deterministic function of seed, data and settings.
#include "ref.hpp"
#include <dlfcn.h>
#ifdef PARALLEL
#include <omp.h>
#endif
using namespace pbt;

static const int ALL = S_RULE | S_MATCH | S_PREDVAL | S_UPD;
struct Opt {
    int omp;
    uint32_t seed;
};
// A whole run: settings, data, training, prediction, scoring. Everything it
// depends on is in the choices and in opt; everything it yields is in out.
static void history(Src &s, const Opt &opt, const Cfg *given, std::vector<double> &out)
{
    Cfg cfg = *given;
    cfg.seed = opt.seed;
    cfg.omp = opt.omp;
    Sys x(cfg);
#ifdef PARALLEL
    omp_set_num_threads(opt.omp);
#endif
    auto d = gen_data(s, cfg, s.range(2, 8));
    for (int ph = 0, n = s.range(1, 4); ph < n; ++ph) {
        switch (s.pickw({5, 1, 1, 1})) {
            case 0: train(x, *d, s, s.range(1, 30)); break;
            case 1: {
                std::vector<double> p((size_t) (d->in.n_samples * x->pa_size)), cv((size_t) x->pa_size, 0.25);
                xcs_supervised_predict(x, d->x.data(), p.data(), d->in.n_samples, s.flip() ? cv.data() : nullptr);
                out.insert(out.end(), p.begin(), p.end());
                break;
            }
            case 2:
                if (cfg.n_actions == 1) {
                    std::vector<double> cv((size_t) x->pa_size, 0.25);
                    out.push_back(xcs_supervised_score(x, &d->in, cv.data()));
                    out.push_back(xcs_supervised_score_n(x, &d->in, s.range(1, 5), cv.data()));
                }
                break;
            default:
                if (cfg.n_actions == 1) out.push_back(xcs_supervised_fit(x, &d->in, nullptr, s.flip(), s.range(0, 9), s.range(1, 30)));
        }
        out.push_back(x->error);
    }
    for (const Field &f : snap_params(x))
        if (strcmp(f.name, "OMP_NUM_THREADS") && strcmp(f.name, "RANDOM_STATE")) out.push_back(f.v);
    for (const Snap &r : snap_set(x, x->pset, ALL))
        for (const Field &f : r) out.push_back(f.v);
    for (int i = 0; i < 3; ++i) out.push_back(rand_uniform(0, 1)); // and the generator ends in the same place
}
extern "C" __attribute__((visibility("default"))) void peer_history(const uint64_t *ch, size_t n, size_t pos, int omp, uint32_t seed, const Cfg *cfg, std::vector<double> *out)
{
    Src s(std::vector<uint64_t>(ch, ch + n));
    s.pos = pos;
    Opt o{omp, seed};
    history(s, o, cfg, *out);
}
static void shuffle_uniform(Src &s, Case &c)
{
    // one always-matching rule whose prediction tells which row was shown
    const bool many = s.flip();
    const int n = many ? s.range(200, 1000) : s.range(2, 6), draws = 1500;
    Cfg g;
    g.cond = COND_TYPE_DUMMY;
    g.pred = PRED_TYPE_CONSTANT;
    g.pop_size = 1;
    g.theta_ea = 1e6;
    g.beta = 0.01;
    g.loss = LOSS_MAE;
    g.seed = (uint32_t) s.below(1u << 31);
    Sys x(g);
    Data d(n, 1, 1);
    for (int i = 0; i < n; ++i) d.xrow(i)[0] = 0.1, d.yrow(i)[0] = many ? i + 0.3 * sin(i) : pow(2.7, i);
    xcs_supervised_fit(x, &d.in, nullptr, true, 0, 200);
    const int parts = many ? 6 : n; // equal shares of the rows
    std::vector<int> cnt((size_t) parts);
    std::vector<double> share((size_t) parts);
    for (int i = 0; i < n; ++i) share[(size_t) (i * parts / n)] += 1.0 / n;
    int seen = 0;
    for (int t = 0; t < draws; ++t) {
        const double p = x->pset.list->cl->prediction[0];
        const double e = xcs_supervised_fit(x, &d.in, nullptr, true, t, 1);
        int row = -1, hits = 0;
        for (int i = 0; i < n; ++i)
            if (close(e, fabs(p - d.yrow(i)[0]), 1e-9, 1e-9)) row = i, ++hits;
        CHECK(hits > 0, "shuffle-row", "a trial's error %.12g fits no row of the data", e);
        if (hits == 1) ++cnt[(size_t) (row * parts / n)], ++seen;
    }
    CHECK(seen > draws * 9 / 10, "shuffle-row", "rows not identified");
    double chi = 0;
    for (int k = 0; k < parts; ++k) chi += pow(cnt[(size_t) k] - seen * share[(size_t) k], 2) / (seen * share[(size_t) k]);
    // chi-square with parts-1 <= 5 degrees of freedom: beyond 80 has probability < 1e-14
    CHECK(chi < 80, "shuffle-uniform", "shuffled rows are not drawn uniformly (chi-square %.1f over %d rows)", chi, n);
    c.desc << "shuffle over " << n << " rows";
    c.count("shuffle distributions");
    c.nontrivial = true;
}
static std::string differ(const std::vector<double> &a, const std::vector<double> &b)
{
    if (a.size() != b.size()) return fmt("%zu results against %zu", a.size(), b.size());
    for (size_t i = 0; i < a.size(); ++i)
        if (!same(a[i], b[i])) return fmt("result %zu is %.17g against %.17g", i, a[i], b[i]);
    return "";
}
static void run(Src &s, Case &c)
{
    if (s.chance(1, 300)) return shuffle_uniform(s, c);
    CfgOpt o;
    o.net_level = s.chance(1, 4) ? 2 : 1;
    const Cfg cfg = gen_cfg(s, o);
    c.desc << cfg.str();
    const uint32_t seed = (uint32_t) s.below(1u << 31);
    const int omp1 = s.range(1, 4), omp2 = s.range(1, 4), noise = s.range(0, 3);
    const size_t mark = s.pos;
    std::vector<double> a, b, p1, p2;
    history(s, Opt{omp1, seed}, &cfg, a);
    // whatever ran before does not matter
    for (int i = 0; i < noise; ++i) rand_normal(0, 1);
    Src again = s;
    again.replay = true;
    again.pos = mark;
    history(again, Opt{omp2, seed}, &cfg, b);
    std::string e = differ(a, b);
    CHECK(e.empty(), "repeat", "repeating the run gives something else: %s", e.c_str());
    static void (*peer)(const uint64_t *, size_t, size_t, int, uint32_t, const Cfg *, std::vector<double> *) = nullptr;
    if (!peer) {
        void *h = dlopen(getenv("PBT_PEER"), RTLD_NOW | RTLD_LOCAL);
        if (h) peer = (decltype(peer)) dlsym(h, "peer_history");
        if (!peer) {
            fprintf(stderr, "no peer: %s\n", dlerror());
            abort();
        }
    }
    if (!cfg.stochastic()) {
        peer(s.ch.data(), std::min(s.pos, s.ch.size()), mark, omp1, seed, &cfg, &p1);
        e = differ(a, p1);
        CHECK(e.empty(), "parallel", "with %d threads the run gives something else than serially: %s", omp1, e.c_str());
        peer(s.ch.data(), std::min(s.pos, s.ch.size()), mark, omp2, seed, &cfg, &p2);
        e = differ(p1, p2);
        CHECK(e.empty(), "threads", "with %d threads the run gives something else than with %d: %s", omp2, omp1, e.c_str());
        c.count("parallel runs", 2);
    }
    if ((cfg.cond == COND_TYPE_HYPERRECTANGLE_CSR || cfg.cond == COND_TYPE_HYPERELLIPSOID) && cfg.pop_init) {
        std::vector<double> other;
        Src third = s;
        third.replay = true;
        third.pos = mark;
        history(third, Opt{omp1, seed ^ 0x5a5a5a}, &cfg, other);
        CHECK(!differ(a, other).empty(), "seeds", "a different seed gives exactly the same run");
        c.count("other seeds");
    }
    c.nontrivial = a.size() > 100;
}
const Property pbt::property = {
    "C13",
    "a case is a random configuration, data set and history run twice in a serial build and twice in a parallel build with other thread counts, all results compared bit for bit (and, in one case of 300, the distribution of shuffled rows); non-trivial: more than 100 numbers compared",
    run, 7000, 300000, 30};
