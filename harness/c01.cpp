// C01: population bookkeeping over learning histories.
#include "common.hpp"
using namespace pbt;

static void run(Src &s, Case &c)
{
    CfgOpt o;
    o.net_level = s.chance(1, 8) ? 2 : 1;
    Cfg g = gen_cfg(s, o);
    if (s.chance(1, 4)) g.pop_size = std::max(g.n_actions * 3 + 2, s.range(2, 8));
    if (!g.neural() && s.chance(1, 12)) { // large sets with set subsumption
        g.pop_size = s.range(60, 400);
        if (s.flip()) g.pop_init = true, g.set_sub = true, g.theta_sub = 1, g.e0 = 0.5, g.c_eta = 0;
    }
    auto d = gen_data(s, g, s.range(1, 12));
    int from_file = 0, from_file_rules = 0;
    if (!g.neural() && g.cond != COND_TYPE_GP && s.chance(1, 5)) { // start from a population file
        Cfg h = g;
        h.pop_init = false;
        Sys donor(h);
        add_rules(donor, h, s, s.range(1, 6));
        scramble(donor, s, s.chance(1, 3) ? 1 : 5);
        from_file = donor->pset.num;
        from_file_rules = donor->pset.size;
        char *json = clset_json_export(donor, &donor->pset, true, true, true);
        g.pop_file = scratch() + "/population.json";
        FILE *f = fopen(g.pop_file.c_str(), "w");
        fputs(json, f);
        fclose(f);
        free(json);
        g.pop_size = std::max(g.pop_size, s.flip() ? from_file : from_file + 3);
        c.count("population_file");
    }
    Sys x(g);
    c.desc << g.str();
    check_population(x);
    const int want = g.pop_init ? g.pop_size : from_file;
    CHECK(x->pset.num == want && x->pset.size == want - from_file + from_file_rules, "seeding",
          "fresh system holds %d rules (numerosity %d), limit %d, seeding %d, %d rules (numerosity %d) from a file", x->pset.size, x->pset.num, g.pop_size, g.pop_init, from_file_rules, from_file);
    CHECK(x->time == 0, "clock", "fresh system's clock is %d", x->time);
    int maxnum = 0;
    bool hit_limit = false, macro = false;
    int prev_time = 0, steps = 0;
    auto step = [&](const char *what) {
        check_population(x);
        CHECK(x->time >= prev_time, "clock", "clock went from %d to %d at %s", prev_time, x->time, what);
        prev_time = x->time;
        maxnum = std::max(maxnum, x->pset.num);
        hit_limit |= x->pset.num == g.pop_size;
        macro |= x->pset.num > x->pset.size;
        ++steps;
    };
    const bool small = !g.neural() && g.cond != COND_TYPE_GP;
    const int n = small ? s.range(5, 120) : s.range(3, 40);
    train(x, *d, s, n, step);
    // the limit can be lowered or raised at run time
    if (s.chance(1, 4)) {
        g.pop_size = s.range(g.n_actions * 3 + 2, 2 * g.pop_size);
        param_set_pop_size(x, g.pop_size);
        clset_init(&x->kset);
        clset_pset_enforce_limit(x);
        clset_kill(x, &x->kset);
        step("new limit");
        train(x, *d, s, n / 3, step);
        c.count("limit_changed");
    }
    // prediction and scoring keep the books too
    if (g.n_actions == 1) {
        std::vector<double> out((size_t) d->in.n_samples * (size_t) x->pa_size);
        const double *cov = s.flip() ? x->cover : nullptr;
        xcs_supervised_predict(x, d->x.data(), out.data(), d->in.n_samples, cov);
        step("predict");
        xcs_supervised_score(x, &d->in, cov);
        step("score");
    }
    c.nontrivial = steps > 3 && (hit_limit || macro);
    c.count("steps", steps);
    c.count(hit_limit ? "limit_reached" : "limit_not_reached");
    if (macro) c.count("macroclassifiers");
    c.count(condition_type_as_string(g.cond));
}
const Property pbt::property = {
    "C01",
    "a case is a random configuration (all representations), data set and history of 5-120 learning steps, checked after every step; non-trivial: the population limit was reached or a rule had numerosity above one",
    run, 12000, 400000, 20};
