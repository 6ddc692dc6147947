// C12: storing and retrieving the population.
#include "ref.hpp"
using namespace pbt;

static const int WHAT = S_RULE | S_MATCH | S_PREDVAL;
static std::vector<Snap> multiset(const XCSF *x, const Set &set)
{
    std::vector<Snap> v = snap_set(x, set, WHAT);
    {
        // the state of a graph is part of what it computes next
        std::vector<Snap> st = snap_set(x, set, S_COND | S_ACT | S_TRANS);
        for (size_t i = 0; i < v.size(); ++i)
            for (const Field &f : st[i])
                if (!strcmp(f.name, "graph.state")) v[i].push_back(f);
    }
    { // as exported: how the rule took part in the last step
        size_t i = 0;
        for (const Clist *p = set.list; p; p = p->next, ++i) {
            v[i].push_back({"current match", 0, (double) p->cl->m});
            v[i].push_back({"current action", 0, (double) p->cl->action});
        }
    }
    for (Snap &s : v) // the gain matrix of least squares starts afresh in a copy
        s.erase(std::remove_if(s.begin(), s.end(), [](const Field &f) { return !strcmp(f.name, "rls.matrix"); }), s.end());
    std::sort(v.begin(), v.end(), [](const Snap &a, const Snap &b) {
        return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end(), [](const Field &f, const Field &g) { return f.v < g.v; });
    });
    return v;
}
static std::vector<double> answers(XCSF *x, Data &d, const std::vector<double> &cover)
{
    std::vector<double> p((size_t) (d.in.n_samples * x->pa_size));
    std::vector<double> cv = cover;
    xcs_supervised_predict(x, d.x.data(), p.data(), d.in.n_samples, cv.data());
    return p;
}
static void run(Src &s, Case &c)
{
    CfgOpt o;
    o.softmax_pred = true;
    o.net_level = s.chance(1, 3) ? 2 : 1;
    const Cfg cfg = gen_cfg(s, o);
    c.desc << cfg.str();
    Sys x(cfg);
    auto d = gen_data(s, cfg, s.range(2, 6));
    std::vector<double> cover((size_t) x->pa_size);
    for (double &v : cover) v = s.uniform(-1, 1);
    const bool plain = !cfg.has_state();
    bool stored = false;
    std::vector<Snap> kept;
    std::vector<double> ans;
    int rounds = 0, changed = 0;
    train(x, *d, s, s.range(0, 20));
    if (s.chance(1, 3)) { // rules as a longer history could have left them
        add_rules(x, cfg, s, s.range(0, 3));
        scramble(x, s, s.pick(std::vector<int>{5, 30}));
        clset_init(&x->kset);
        clset_pset_enforce_limit(x);
        clset_kill(x, &x->kset);
    }
    const int steps = s.range(3, 9);
    for (int t = 0; t < steps; ++t) {
        switch (stored ? s.pickw({5, 1, 4, 1, 1}) : s.pickw({2, 8, 1, 1, 1})) {
            case 0: train(x, *d, s, s.range(1, 25)); break;
            case 1: {
                c.desc << " store";
                if (plain) ans = answers(x, *d, cover);
                const auto all0 = snap_set(x, x->pset, WHAT | S_TRANS | S_UPD);
                const Snap p0 = snap_params(x);
                xcsf_store_pset(x);
                std::string e = diff_sets(all0, snap_set(x, x->pset, WHAT | S_TRANS | S_UPD));
                CHECK(e.empty(), "store-changed", "storing changed the population: %s", e.c_str());
                e = diff(p0, snap_params(x));
                CHECK(e.empty(), "store-params", "storing changed settings: %s", e.c_str());
                kept = multiset(x, x->pset);
                stored = x->pset.size > 0;
                break;
            }
            case 2: {
                c.desc << " retrieve";
                const Snap p0 = snap_params(x);
                const auto before = multiset(x, x->pset);
                xcsf_retrieve_pset(x);
                std::string e = diff(p0, snap_params(x));
                CHECK(e.empty(), "retrieve-params", "retrieving changed settings: %s", e.c_str());
                const auto now = multiset(x, x->pset);
                if (!stored) {
                    e = diff_sets(before, now);
                    CHECK(e.empty(), "retrieve-none", "retrieving without a stored population changed the current one: %s", e.c_str());
                } else {
                    e = diff_sets(kept, now);
                    CHECK(e.empty(), "retrieve", "retrieved population is not what was stored: %s", e.c_str());
                    check_population(x, false);
                    if (plain) {
                        const auto a2 = answers(x, *d, cover);
                        for (size_t i = 0; i < ans.size(); ++i) CHECK(close(ans[i], a2[i], 1e-9, 1e-12), "answers", "retrieved population answers %.12g instead of %.12g", a2[i], ans[i]);
                    }
                    ++rounds;
                    if (diff_sets(before, now).empty()) ; else ++changed;
                }
                stored = false;
                break;
            }
            case 3: // prediction in between
                answers(x, *d, cover);
                break;
            default: // a checkpoint elsewhere does not disturb it
                xcsf_save(x, (scratch() + "/x.bin").c_str());
                break;
        }
        if (stored) {
            const std::string e = diff_sets(kept, multiset(x, x->prev_pset));
            CHECK(e.empty(), "stored-altered", "the stored population changed while the current one was used: %s", e.c_str());
        }
        CHECK(stored || x->prev_pset.size == 0, "leftover", "a stored population remains");
    }
    c.count("retrieved", rounds);
    c.count("retrieved after change", changed);
    c.nontrivial = changed > 0;
}
const Property pbt::property = {
    "C12",
    "a case is a random configuration and a random history of learning, storing, retrieving, predicting and saving; non-trivial: a retrieval replaced a population that had changed since it was stored",
    run, 16000, 500000, 20};
