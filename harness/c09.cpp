// C09: saving and loading a model restores it completely.
#include "ref.hpp"
#include <unistd.h>
using namespace pbt;

static const int ALL = S_RULE | S_MATCH | S_PREDVAL | S_UPD;

static std::string system_diff(const XCSF *a, const XCSF *b, int what)
{
    std::string d = diff(snap_params(a), snap_params(b));
    if (!d.empty()) return "settings: " + d;
    if (strcmp(a->population_file, b->population_file)) return "population file name";
    if (a->pset.size != b->pset.size || a->pset.num != b->pset.num)
        return fmt("population is %d/%d, was %d/%d", b->pset.size, b->pset.num, a->pset.size, a->pset.num);
    const auto ra = rules(a->pset), rb = rules(b->pset);
    for (size_t i = 0; i < ra.size(); ++i)
        if (ra[i]->m != rb[i]->m || ra[i]->action != rb[i]->action) return fmt("rule %zu: current match %d action %d, was %d %d", i, rb[i]->m, rb[i]->action, ra[i]->m, ra[i]->action);
    return diff_sets(snap_set(a, a->pset, what), snap_set(b, b->pset, what));
}
static void run(Src &s, Case &c)
{
    CfgOpt o;
    o.softmax_pred = true;
    o.net_level = s.chance(1, 3) ? 2 : 1;
    const Cfg cfg = gen_cfg(s, o);
    c.desc << cfg.str();
    Sys a(cfg);
    auto d = gen_data(s, cfg, s.range(2, 8));
    train(a, *d, s, s.range(0, 40));
    if (s.chance(1, 4)) scramble(a, s, 5);
    if (s.chance(1, 4)) {
        const std::string name = s.flip() ? "rules.json" : std::string((size_t) s.range(1, 300), 'p');
        param_set_population_file(a, name.c_str());
    }
    const std::string f1 = scratch() + "/a.bin", f2 = scratch() + "/b.bin";
    const Snap p0 = snap_params(a);
    const auto s0 = snap_set(a, a->pset, ALL);
    const size_t w1 = xcsf_save(a, f1.c_str());
    CHECK(diff(p0, snap_params(a)).empty() && diff_sets(s0, snap_set(a, a->pset, ALL)).empty(), "save-changed", "saving changed the system");
    // what it is loaded into
    std::unique_ptr<Sys> b;
    const int mode = s.pickw({3, 3, 2, 1});
    switch (mode) {
        case 0: b.reset(new Sys(s.range(1, 5), s.range(1, 4), s.range(1, 5))); break;
        case 1: {
            const Cfg other = gen_cfg(s, o);
            c.desc << " INTO " << other.str();
            b.reset(new Sys(other));
            auto d2 = gen_data(s, other, 3);
            train(*b, *d2, s, s.range(0, 15));
            break;
        }
        case 2: {
            b.reset(new Sys(cfg));
            auto d2 = gen_data(s, cfg, 3);
            train(*b, *d2, s, s.range(0, 15));
            break;
        }
        default: break;
    }
    c.count(mode == 0 ? "into default" : mode == 1 ? "into other" : mode == 2 ? "into same settings" : "into itself");
    if (mode == 3) {
        // go back to a checkpoint after learning on
        auto d2 = gen_data(s, cfg, 3);
        train(a, *d2, s, s.range(1, 20));
        const size_t r1 = xcsf_load(a, f1.c_str());
        CHECK(r1 == w1, "count", "%zu elements saved, %zu loaded", w1, r1);
        CHECK(diff(p0, snap_params(a)).empty(), "params", "settings after going back: %s", diff(p0, snap_params(a)).c_str());
        const std::string e = diff_sets(s0, snap_set(a, a->pset, ALL));
        CHECK(e.empty(), "rules", "going back to a checkpoint: %s", e.c_str());
        c.nontrivial = a->pset.size > 0;
        check_population(a, false);
        return;
    }
    XCSF *B = *b;
    const size_t r1 = xcsf_load(B, f1.c_str());
    CHECK(r1 == w1, "count", "%zu elements saved, %zu loaded", w1, r1);
    std::string e = system_diff(a, B, ALL);
    CHECK(e.empty(), "restored", "loaded model differs: %s", e.c_str());
    check_population(B, false);
    const size_t w2 = xcsf_save(B, f2.c_str());
    CHECK(w1 == w2 && slurp(f1) == slurp(f2), "resave", "saving the loaded model writes a different file");
    // same answers
    const uint32_t seed = (uint32_t) s.below(1u << 31);
    seed_rng(seed);
    std::vector<double> pa((size_t) (d->in.n_samples * a->pa_size)), pb(pa);
    std::vector<double> cover((size_t) a->pa_size);
    for (double &v : cover) v = s.uniform(-1, 1);
    CHECK(a->pa_size == B->pa_size && B->pa_size == B->n_actions * B->y_dim, "pa-size", "prediction array has %d entries, expected %d", B->pa_size, B->n_actions * B->y_dim);
    xcs_supervised_predict(a, d->x.data(), pa.data(), d->in.n_samples, cover.data());
    seed_rng(seed);
    xcs_supervised_predict(B, d->x.data(), pb.data(), d->in.n_samples, cover.data());
    CHECK(pa == pb, "predict", "the loaded model predicts differently");
    c.nontrivial = !s0.empty();
    c.count(fmt("cond %d", cfg.cond).c_str());
    c.count(fmt("pred %d", cfg.pred).c_str());
#ifdef PARALLEL
    if (cfg.stochastic()) return; // threads share the generator: no two runs are equal
#endif
    // and same future
    const int more = s.range(1, 25);
    const size_t mark = s.pos;
    seed_rng(seed + 1);
    train(a, *d, s, more);
    Src s2 = s; // replay the same choices for the loaded one
    s2.replay = true;
    s2.pos = mark;
    seed_rng(seed + 1);
    train(B, *d, s2, more);
    e = system_diff(a, B, ALL);
    CHECK(e.empty(), "continue", "the loaded model learns differently: %s", e.c_str());
}
const Property pbt::property = {
    "C09",
    "a case is a random configuration of any rule representation, a random learning history, a save, a load into a default, differently configured, equally configured or the same object, and a further history on both; non-trivial: the saved population had rules",
    run, 12000, 400000, 20};
