// C24: reinforcement learning credits the right rules with the right payoff.
#include "ref.hpp"
#include <fcntl.h>
#include <sstream>
#include <unistd.h>
using namespace pbt;

static const int ALL = S_RULE | S_PREDVAL | S_UPD;
static double ref_acc(const XCSF *x, double err)
{
    if (err <= x->E0) return 1;
    return std::max(x->ALPHA * pow(err / x->E0, -x->NU), DBL_EPSILON);
}
// exact duplicates of rules, made through the save format
struct Clones {
    const XCSF *x;
    std::map<const Cl *, Cl *> m;
    explicit Clones(const XCSF *x_, const std::vector<const Cl *> &v) : x(x_)
    {
        for (const Cl *c : v) {
            char *buf = nullptr;
            size_t n = 0;
            FILE *f = open_memstream(&buf, &n);
            cl_save(x, c, f);
            fclose(f);
            f = fmemopen(buf, n, "rb");
            Cl *d = (Cl *) malloc(sizeof(Cl));
            cl_load(x, d, f);
            fclose(f);
            free(buf);
            m[c] = d;
        }
    }
    ~Clones()
    {
        for (auto &p : m) cl_free(x, p.second);
    }
};
static bool amb_e0;
// expected credit: every member learns the payoff for this input
static void credit(const XCSF *x, Clones &cl, const std::vector<const Cl *> &set, const double *in, double payoff)
{
    int num = 0;
    for (const Cl *c : set) num += c->num;
    double sum = 0;
    for (const Cl *c : set) {
        Cl *d = cl.m.at(c);
        cl_update(x, d, in, &payoff, num, false);
        if (fabs(d->err - x->E0) < 1e-9) amb_e0 = true;
        sum += ref_acc(x, d->err) * d->num;
    }
    for (const Cl *c : set) {
        Cl *d = cl.m.at(c);
        d->fit += x->BETA * (ref_acc(x, d->err) * d->num / sum - d->fit);
    }
}
static void compare(const XCSF *x, Clones &cl, const std::vector<const Cl *> &upd, const char *what)
{
    for (auto &p : cl.m) {
        const bool in = std::find(upd.begin(), upd.end(), p.first) != upd.end();
        Snap want = snap_cl(x, p.second, in ? S_RULE | S_UPD : ALL), got = snap_cl(x, p.first, in ? S_RULE | S_UPD : ALL);
        const std::string d = diff(want, got, in ? 1e-7 : 0);
        CHECK(d.empty(), in ? "credit" : "bystander", "%s: a rule %s: (expected vs found) %s", what, in ? "was not updated as expected" : "that should not learn changed", d.c_str());
    }
}
static std::vector<const Cl *> advocates(const XCSF *x, int action)
{
    std::vector<const Cl *> v;
    for (const Cl *c : rules(x->mset))
        if (c->action == action) v.push_back(c);
    return v;
}
static bool same_rules(std::vector<const Cl *> a, std::vector<const Cl *> b)
{
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    return a == b;
}
static double ref_pa(const XCSF *x, int a)
{
    long double p = 0, n = 0;
    for (const Cl *c : rules(x->mset))
        if (c->action == a) p += (long double) c->prediction[0] * c->fit, n += c->fit;
    return n != 0 ? (double) (p / n) : 0;
}
static void exploration(Src &s, Case &c)
{
    // a fixed population with known best actions
    Cfg g;
    g.cond = COND_TYPE_DUMMY;
    g.pred = PRED_TYPE_CONSTANT;
    g.n_actions = s.range(2, 5);
    g.pop_size = 50;
    g.p_explore = s.pick(std::vector<double>{0, 0.1, 0.5, 0.9, 1});
    g.seed = (uint32_t) s.below(1u << 31);
    Sys x(g);
    const double in = 0.5;
    xcs_rl_init_trial(x);
    xcs_rl_init_step(x);
    clset_match(x, &in, true);
    // action 1 is a best one, others may tie with it
    std::vector<bool> top((size_t) g.n_actions, false);
    const bool ties = s.chance(1, 3);
    for (int a = 0; a < g.n_actions; ++a) top[(size_t) a] = a == 1 || (ties && s.flip());
    const int n_top = (int) std::count(top.begin(), top.end(), true);
    for (const Cl *r : rules(x->pset)) r->prediction[0] = top[(size_t) r->action] ? 5 : s.uniform(-3, 3);
    clset_free(&x->mset);
    const bool explore = s.chance(3, 4);
    param_set_explore(x, explore);
    const int n = 400;
    std::vector<int> k((size_t) g.n_actions);
    for (int i = 0; i < n; ++i) {
        clset_init(&x->mset);
        const int a = xcs_rl_decision(x, &in);
        CHECK(a >= 0 && a < g.n_actions, "action-range", "decided for action %d of %d", a, g.n_actions);
        ++k[(size_t) a];
        clset_free(&x->mset);
    }
    xcs_rl_end_trial(x);
    c.desc << "decisions among " << g.n_actions << " P_EXPLORE " << g.p_explore << (explore ? " exploring" : " exploiting");
    const double p = explore ? g.p_explore : 0;
    for (int a = 0; a < g.n_actions && p == 0; ++a)
        if (!top[(size_t) a]) CHECK(k[(size_t) a] == 0, "greedy", "exploiting chose an action that is not the best %d times", k[(size_t) a]);
    if (n_top > 1) c.count("ties");
    for (int a = 0; a < g.n_actions; ++a) {
        const double q = (top[(size_t) a] ? (1 - p) / n_top : 0) + p / g.n_actions;
        // Bernstein bound, false alarm probability below 1e-12 each
        const double dev = sqrt(2 * n * q * (1 - q) * 28) + 28.0 / 3 + 1;
        CHECK(fabs(k[(size_t) a] - n * q) <= dev, "explore-rate", "action %d chosen %d times of %d, expected about %.1f", a, k[(size_t) a], n, n * q);
    }
    c.count("decision distributions");
    c.nontrivial = explore && p > 0;
}
// A scripted problem played by xcs_rl_exp(). Every rule accepts one state (or
// all), so a table tells what has to be learnt.
struct Play {
    XCSF *x;
    uint64_t rng;
    int na, limit, trial = -1, step = 0, planned_done = 0;
    double p_done, max_p;
    bool multi, general, done = true, fetched = false;
    std::vector<double> state;
    struct Val {
        double w = 0;
        int exp = 0;
    };
    std::map<std::pair<std::vector<double>, int>, Val> tab;
    std::vector<double> prev_state;
    double prev_reward = 0, prev_pred = 0, error, perf = 0, last_reward = 0;
    int prev_action = -1, time = 0, steps = 0, exploits = 0, credited = 0, cut = 0;
    double trial_error = 0;
    std::vector<std::pair<double, double>> results; //!< performance and mean error of each exploiting trial
    std::vector<int> sizes; //!< rules there were after it

    uint64_t next()
    {
        rng += 0x9E3779B97F4A7C15ULL;
        uint64_t z = rng;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    double unit() { return (double) (next() >> 11) / 9007199254740992.0; }
    Val &val(const std::vector<double> &st, int a) { return tab[std::make_pair(general ? std::vector<double>() : st, a)]; }
    void finish()
    {
        if (trial < 0) return;
        CHECK(done || step == limit, "trial-length", "trial %d was ended after %d of %d steps, unsolved", trial, step, limit);
        cut += !done;
        if (trial % 2 == 1) {
            const double r = multi ? step : last_reward > 0;
            perf += r;
            ++exploits;
            results.emplace_back(r, trial_error / step);
            sizes.push_back((int) tab.size());
        }
    }
    void learn(const std::vector<double> &st, int a, double target)
    {
        Val &v = val(st, a);
        ++v.exp;
        ++credited;
        v.w = v.exp * x->BETA < 1 ? (v.w * (v.exp - 1) + target) / v.exp : v.w + x->BETA * (target - v.w);
        if (x->explore) ++time;
    }
};
static Play *play;
static void env_reset_(const XCSF *)
{
    play->finish();
    ++play->trial;
    play->step = 0;
    play->done = play->fetched = false;
    play->prev_action = -1;
    play->trial_error = 0;
}
static const double *env_state_(const XCSF *x)
{
    Play &p = *play;
    CHECK(p.trial >= 0, "reset", "the problem was not reset before the first step");
    CHECK(!p.done, "solved", "trial %d continues after it was solved", p.trial);
    CHECK(p.step < p.limit, "trial-length", "trial %d goes on after %d steps", p.trial, p.step);
    CHECK(x->explore == (p.trial % 2 == 0), "alternate", "trial %d is %s", p.trial, x->explore ? "exploring" : "exploiting");
    if (!p.fetched)
        for (double &e : p.state) e = (double) (p.next() & 1);
    p.fetched = true;
    return p.state.data();
}
static double env_exec_(const XCSF *x, const int a)
{
    Play &p = *play;
    CHECK(a >= 0 && a < p.na, "action-range", "action %d of %d", a, p.na);
    CHECK(p.fetched, "blind", "an action was executed without looking at the state");
    double best = -INFINITY;
    for (int k = 0; k < p.na; ++k) best = std::max(best, p.val(p.state, k).w);
    const double pr = p.val(p.state, a).w;
    if (!x->explore || x->P_EXPLORE == 0) CHECK(pr >= best - 1e-9 * (1 + fabs(best)), "greedy", "took an action valued %g where the best is %g", pr, best);
    const double reward = p.unit() < 0.4 ? 0 : p.unit() < 0.5 ? p.max_p : 2 * p.unit() - 1;
    const bool done = p.unit() < p.p_done;
    double e = 0;
    if (p.prev_action >= 0) {
        const double t = p.prev_reward + x->GAMMA * pr;
        e += ref_loss(x, &p.prev_pred, &t) / p.max_p;
        p.learn(p.prev_state, p.prev_action, p.prev_reward + x->GAMMA * best);
    }
    if (done) {
        e += ref_loss(x, &pr, &reward) / p.max_p;
        p.learn(p.state, a, reward);
    }
    p.error += x->BETA * (e - p.error);
    p.trial_error += e;
    p.prev_state = p.state;
    p.prev_action = a;
    p.prev_reward = p.last_reward = reward;
    p.prev_pred = pr;
    p.done = done;
    p.fetched = false;
    ++p.step;
    ++p.steps;
    return reward;
}
// What is printed to the standard output meanwhile.
struct Captured {
    std::string path = scratch() + "/printed";
    int keep;
    Captured()
    {
        fflush(stdout);
        keep = dup(1);
        const int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        dup2(fd, 1);
        ::close(fd);
    }
    std::string end()
    {
        if (keep >= 0) {
            fflush(stdout);
            dup2(keep, 1);
            ::close(keep);
        }
        keep = -1;
        return slurp(path);
    }
    ~Captured() { end(); }
};
// One line for every window of trials: the last of them, mean performance and
// error, and the number of rules.
static void report(const Play &p, const std::string &text)
{
    const XCSF *x = p.x;
    std::istringstream in(text);
    std::string line;
    double perf = 0, err = 0;
    int n = 0;
    for (int t = 0; t < x->MAX_TRIALS; ++t) {
        perf += p.results[(size_t) t].first;
        err += p.results[(size_t) t].second;
        ++n;
        if (t == 0 || t % x->PERF_TRIALS) continue;
        CHECK(!!std::getline(in, line), "report", "nothing reported after trial %d", t);
        int gt = -1, gs = -1;
        double gp = NAN, ge = NAN;
        CHECK(sscanf(line.c_str(), "%d %lf %lf %d", &gt, &gp, &ge, &gs) == 4, "report", "reported '%s'", line.c_str());
        CHECK(gt == t, "report", "trial %d reported as %d", t, gt);
        CHECK(fabs(gp - perf / n) < 1e-5, "report", "mean performance of %d trials up to %d reported as %.5f, it was %.7f", n, t, gp, perf / n);
        CHECK(fabs(ge - err / n) < 1e-5 + 1e-9 * fabs(err / n), "report", "mean error of %d trials up to %d reported as %.5f, it was %.7f", n, t, ge, err / n);
        CHECK(gs == p.sizes[(size_t) t], "report", "%d rules reported after trial %d, there were %d", gs, t, p.sizes[(size_t) t]);
        perf = err = n = 0;
    }
    CHECK(!std::getline(in, line), "report", "also printed '%s'", line.c_str());
}
static void experiment(Src &s, Case &c)
{
    Cfg g;
    g.cond = s.chance(1, 3) ? COND_TYPE_DUMMY : COND_TYPE_TERNARY;
    g.p_dc = 0;
    g.bits = 1;
    g.pred = PRED_TYPE_CONSTANT;
    g.x_dim = s.range(1, 3);
    g.n_actions = s.range(2, 4);
    g.pop_size = 1000;
    g.theta_ea = 1e9;
    g.set_sub = false;
    g.p_explore = s.pick(std::vector<double>{0.5, 0, 1});
    g.gamma = s.pick(std::vector<double>{0.95, 0, 0.5, 1, 0.71});
    g.beta = s.pick(std::vector<double>{0.1, 0.5, 1, 0.02});
    g.seed = (uint32_t) s.below(1u << 31);
    Sys x(g);
    param_set_max_trials(x, s.range(1, 12));
    param_set_perf_trials(x, s.range(1, 5));
    param_set_teletransportation(x, s.pick(std::vector<int>{5, 1, 2, 10, 50}));
    static const EnvVtbl vt = {[](const XCSF *) { return play->done; }, [](const XCSF *) { return play->multi; }, env_exec_,
                               [](const XCSF *) { return play->max_p; }, env_state_, [](const XCSF *) {}, env_reset_};
    Play p;
    p.x = x;
    p.rng = s.below(1ULL << 62);
    p.na = g.n_actions;
    p.limit = x->TELETRANSPORTATION;
    p.p_done = s.pick(std::vector<double>{0.3, 1, 0, 0.05});
    p.max_p = s.pick(std::vector<double>{1, 10, 0.5});
    p.multi = s.flip();
    p.general = g.cond == COND_TYPE_DUMMY;
    p.state.resize((size_t) g.x_dim);
    p.error = x->error;
    play = &p;
    x->env_vptr = &vt;
    c.desc << g.str() << " experiment of " << x->MAX_TRIALS << " pairs of trials, at most " << p.limit << " steps, solved with probability " << p.p_done;
    const int rounds = s.range(1, 2);
    for (int k = 0; k < rounds; ++k) {
        p.trial = -1;
        p.perf = p.exploits = 0;
        p.results.clear();
        p.sizes.clear();
        Captured out;
        const double got = xcs_rl_exp(x);
        const std::string printed = out.end();
        p.finish();
        CHECK(p.trial + 1 == 2 * x->MAX_TRIALS, "trials", "%d trials were run, %d requested", p.trial + 1, 2 * x->MAX_TRIALS);
        report(p, printed);
        CHECK(close(got, p.perf / x->MAX_TRIALS, 1e-9, 1e-12), "performance", "the experiment returned performance %.12g, it was %.12g", got, p.perf / x->MAX_TRIALS);
        CHECK(close(x->error, p.error, 1e-7, 1e-9), "running-error", "running error %.12g, expected %.12g", x->error, p.error);
        CHECK(x->time == p.time, "clock", "the clock shows %d, expected %d", x->time, p.time);
        CHECK(x->pset.size == (int) p.tab.size(), "population", "%d rules, expected %zu", x->pset.size, p.tab.size());
        for (const Cl *r : rules(x->pset)) {
            std::vector<double> st;
            if (!p.general)
                for (int i = 0; i < g.x_dim; ++i) st.push_back(((const CondTernary *) r->cond)->string[i] == '1');
            auto it = p.tab.find(std::make_pair(st, r->action));
            CHECK(it != p.tab.end(), "population", "a rule for a state that was never visited");
            CHECK(r->exp == it->second.exp, "experience", "a rule was updated %d times, expected %d", r->exp, it->second.exp);
            CHECK(close(r->prediction[0], it->second.w, 1e-7, 1e-9), "learnt", "a rule predicts %.12g, expected %.12g", r->prediction[0], it->second.w);
        }
    }
    c.count("experiments");
    c.count("experiment steps", p.steps);
    c.count("trials cut short", p.cut);
    c.nontrivial = p.credited > 0;
}
static void run(Src &s, Case &c)
{
    if (s.chance(1, 40)) return exploration(s, c);
    if (s.chance(1, 8)) return experiment(s, c);
    amb_e0 = false;
    CfgOpt o;
    o.mode = 1;
    o.recurrent = false;
    o.stateful = false;
    o.stochastic = false;
    Cfg g = gen_cfg(s, o);
    g.set_sub = false;
    g.gamma = s.pick(std::vector<double>{0.95, 0, 0.5, 1, 0.71});
    const bool evolve = s.chance(1, 3); // otherwise the population only grows by covering
    if (!evolve) {
        g.theta_ea = 1e9;
        g.pop_size = 100000;
        g.pop_init = false;
    }
    c.desc << g.str() << (evolve ? " evolving" : "");
    Sys x(g);
    auto d = gen_data(s, g, s.range(2, 6));
    if (s.flip()) train(x, *d, s, s.range(1, 12));
    int credited = 0;
    const int trials = s.range(1, 4);
    for (int t = 0; t < trials; ++t) {
        if (s.chance(1, 3)) {
            // single step
            const int row = s.range(0, d->in.n_samples - 1), a = s.range(0, g.n_actions - 1);
            const double *in = d->xrow(row), reward = s.real(-1, 2), err0 = x->error;
            const int time0 = x->time;
            if (!evolve) {
                // cover first, so that the set is known before
                clset_init(&x->mset);
                clset_init(&x->kset);
                clset_match(x, in, true);
                pa_build(x, in);
                const auto upd = advocates(x, a);
                const double pred = ref_pa(x, a);
                Clones cl(x, rules(x->pset));
                clset_free(&x->mset);
                for (auto &p : cl.m) ++p.second->age, p.second->mtotal += p.second->m;
                credit(x, cl, upd, in, reward);
                const double e = xcs_rl_fit(x, in, a, reward), we = ref_loss(x, &pred, &reward);
                CHECK(close(e, we, 1e-7, 1e-9), "fit-error", "single-step learning reports error %.12g, expected %.12g", e, we);
                CHECK(close(x->error, err0 + x->BETA * (e - err0), 1e-9, 1e-12), "running-error", "running error %.12g from %.12g after %.12g", x->error, err0, e);
                CHECK(x->pset.size == (int) cl.m.size(), "population", "single-step learning changed the population from %zu to %d rules", cl.m.size(), x->pset.size);
                if (!amb_e0)
                    for (auto &p : cl.m) {
                        const bool in_set = std::find(upd.begin(), upd.end(), p.first) != upd.end();
                        const std::string df = diff(snap_cl(x, p.second, S_RULE | S_UPD), snap_cl(x, p.first, S_RULE | S_UPD), in_set ? 1e-7 : 0);
                        CHECK(df.empty(), in_set ? "fit-credit" : "fit-bystander", "single step: a rule %s: %s", in_set ? "was not updated as expected" : "that should not learn changed", df.c_str());
                    }
                credited += (int) upd.size();
            } else {
                xcs_rl_fit(x, in, a, reward);
                CHECK(x->time == time0 + 1, "clock", "single-step learning moved the clock from %d to %d", time0, x->time);
                check_population(x);
            }
            CHECK(x->explore, "fit-explore", "single-step learning left exploration off");
            continue;
        }
        const bool explore = s.chance(2, 3), finish = s.chance(3, 4);
        const int len = s.range(1, 8);
        param_set_explore(x, explore);
        xcs_rl_init_trial(x);
        std::vector<const Cl *> prev;
        std::vector<double> prev_in;
        double prev_reward = 0, prev_pred = 0;
        for (int k = 0; k < len; ++k) {
            const int row = s.range(0, d->in.n_samples - 1);
            const double *in = d->xrow(row);
            xcs_rl_init_step(x);
            const int chosen = xcs_rl_decision(x, in);
            CHECK(chosen >= 0 && chosen < g.n_actions, "action-range", "decided for action %d of %d", chosen, g.n_actions);
            CHECK(!advocates(x, chosen).empty(), "no-advocate", "decided for an action nobody advocates");
            std::vector<double> pa;
            for (int a = 0; a < g.n_actions; ++a) pa.push_back(ref_pa(x, a));
            const double best = *std::max_element(pa.begin(), pa.end());
            if (!explore) CHECK(close(pa[(size_t) chosen], best, 1e-9, 1e-9), "greedy", "exploiting chose an action valued %g, the best is %g", pa[(size_t) chosen], best);
            // the environment may do what it likes with the decision
            const int a = s.chance(1, 4) ? s.range(0, g.n_actions - 1) : chosen;
            const double reward = s.chance(1, 3) ? 0 : s.real(-1, 2);
            const bool done = finish && k == len - 1;
            const std::vector<const Cl *> now = advocates(x, a);
            const int time0 = x->time, size0 = x->pset.size;
            const double err0 = x->error;
            std::vector<const Cl *> alive;
            for (const Cl *r : prev)
                if (r->num > 0) alive.push_back(r); // deleted rules are gone
            prev = alive;
            const double payoff = prev_reward + g.gamma * best;
            if (!evolve) {
                Clones cl(x, rules(x->pset));
                std::vector<const Cl *> upd = prev;
                if (!prev.empty()) credit(x, cl, prev, prev_in.data(), payoff);
                if (done) {
                    credit(x, cl, now, in, reward);
                    upd.insert(upd.end(), now.begin(), now.end());
                }
                xcs_rl_update(x, in, a, reward, done);
                CHECK(x->pset.size == size0, "population", "an update without evolution changed the number of rules");
                if (!amb_e0) compare(x, cl, upd, done ? "last step" : "step");
                credited += (int) upd.size();
            } else {
                const bool had = !prev.empty();
                xcs_rl_update(x, in, a, reward, done);
                check_population(x);
                if (!explore) CHECK(x->time == time0 && x->pset.size == size0, "exploit-evolves", "evolution happened while exploiting (clock %d to %d, rules %d to %d)", time0, x->time, size0, x->pset.size);
                else CHECK(x->time == time0 + (had || k > 0) + done, "clock", "clock moved from %d to %d at step %d%s", time0, x->time, k, done ? " (last)" : "");
            }
            CHECK(evolve || same_rules(rules(x->aset), now), "action-set", "the action set is not the matching rules advocating the action");
            const double max_p = s.pick(std::vector<double>{1, 2, 1000});
            const double e = xcs_rl_error(x, a, reward, done, max_p);
            if (!evolve) {
                double we = 0;
                const double pr = pa[(size_t) a], target = prev_reward + g.gamma * pr;
                if (!prev.empty()) we += ref_loss(x, &prev_pred, &target) / max_p;
                if (done) we += ref_loss(x, &pr, &reward) / max_p;
                CHECK(close(e, we, 1e-7, 1e-9), "error", "step error %.12g, expected %.12g", e, we);
                CHECK(close(x->error, err0 + x->BETA * (e - err0), 1e-9, 1e-12), "running-error", "running error %.12g from %.12g after %.12g", x->error, err0, e);
            }
            xcs_rl_end_step(x, in, a, reward);
            prev = now;
            prev_in.assign(in, in + g.x_dim);
            prev_reward = reward;
            prev_pred = pa[(size_t) a];
            if (done) break;
        }
        xcs_rl_end_trial(x);
        check_population(x, evolve);
    }
    c.count(evolve ? "evolving" : "exact");
    c.count("updates checked", credited);
    c.nontrivial = credited > 0 || evolve;
}
const Property pbt::property = {
    "C24",
    "a case is a random system with several actions and a random sequence of single-step fits and multi-step episodes with arbitrary rewards (and, in one case of 40, the distribution of 400 decisions); non-trivial: some rule was credited, or evolution ran, or exploration was enabled",
    run, 40000, 1500000, 20};
