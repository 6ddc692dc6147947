// C25: built-in problems and file readers deliver the data they define.
#include "common.hpp"
#include <unistd.h>
using namespace pbt;

struct EnvBox { // a system with one of the built-in problems
    XCSF x;
    bool ok = false, init = false;
    EnvBox(const char *kind, const std::string &arg)
    {
        memset(&x, 0, sizeof x);
        std::string a0 = "xcsf", a1 = kind, a2 = arg;
        char *argv[] = {&a0[0], &a1[0], &a2[0], nullptr};
        ok = !lib_exits([&] { env_init(&x, argv); });
    }
    ~EnvBox()
    {
        if (!ok) return;
        env_free(&x);
        if (init) xcsf_free(&x);
        param_free(&x);
    }
};
static void put(const std::string &path, const std::string &text)
{
    FILE *f = fopen(path.c_str(), "wb");
    CHECK(f != nullptr, "scratch", "cannot write %s", path.c_str());
    fwrite(text.data(), 1, text.size(), f);
    fclose(f);
}

static void mux(Src &s, Case &c)
{
    const int bits = s.range(3, 45);
    c.desc << "multiplexer with " << bits << " bits";
    int p = 1;
    while (p + 1 + (1 << (p + 1)) <= bits) ++p;
    const int n = p + (1 << p);
    EnvBox e("mp", fmt("%d", bits));
    CHECK(e.ok, "mux-init", "the multiplexer could not be created");
    seed_rng((uint32_t) s.below(1u << 31));
    XCSF *x = &e.x;
    CHECK(x->x_dim == n && x->y_dim == 1 && x->n_actions == 2, "mux-dim", "dimensions %d/%d/%d for %d bits, expected %d/1/2", x->x_dim, x->y_dim, x->n_actions, bits, n);
    CHECK(env_is_done(x) && !env_multistep(x) && env_max_payoff(x) == 1, "mux-kind", "not a single-step problem with unit payoff");
    std::vector<int> hi((size_t) n), lo((size_t) n);
    auto judge = [&](const double *st) {
        int addr = 0;
        for (int i = 0; i < p; ++i) addr = 2 * addr + (st[i] > 0.5);
        const int ans = st[p + addr] > 0.5;
        for (int a = 0; a < 2; ++a) {
            const double r = env_execute(x, a);
            CHECK(r == (a == ans ? 1 : 0), "mux-reward", "address %d of %d: action %d for bit %d pays %g", addr, 1 << p, a, ans, r);
        }
        CHECK(env_is_done(x), "mux-kind", "trial not over after one action");
    };
    const int rounds = s.range(1, 80);
    for (int t = 0; t < rounds; ++t) {
        env_reset(x);
        const double *st = env_get_state(x);
        for (int i = 0; i < n; ++i) {
            CHECK(st[i] >= 0 && st[i] <= 1, "mux-range", "input %d is %g", i, st[i]);
            ++(st[i] > 0.5 ? hi : lo)[(size_t) i];
        }
        const std::vector<double> before(st, st + n);
        judge(st);
        for (int i = 0; i < n; ++i) CHECK(st[i] == before[(size_t) i], "mux-state", "answering changed the input");
        // any input at all
        double *w = const_cast<double *>(st);
        const int kind = s.range(0, 2);
        for (int i = 0; i < n; ++i) w[i] = kind == 0 ? (double) s.flip() : kind == 1 ? s.pick(std::vector<double>{0, 0.25, 0.5, 0.500001, 1}) : s.unit();
        judge(st);
        c.count("multiplexer inputs", 2);
    }
    if (rounds >= 50)
        for (int i = 0; i < n; ++i) CHECK(hi[(size_t) i] && lo[(size_t) i], "mux-constant", "input %d never changes", i);
    c.nontrivial = p > 1;
}

static void maze(Src &s, Case &c)
{
    static const int dx[] = {0, 1, 1, 1, 0, -1, -1, -1}, dy[] = {-1, -1, 0, 1, 1, 1, 0, -1};
    static const std::map<char, double> code = {{'*', 0.1}, {'O', 0.3}, {'G', 0.5}, {'F', 0.7}, {'Q', 0.9}};
    const bool big = s.chance(1, 20);
    int w = big ? s.range(45, 55) : s.range(1, 8), h = big ? s.range(45, 55) : s.range(1, 8);
    std::vector<std::string> m((size_t) h, std::string((size_t) w, '*'));
    const int dens = s.range(1, 6);
    for (auto &r : m)
        for (auto &ch : r)
            if (s.chance((unsigned) dens, 8)) ch = "OQFG"[s.below(4)];
    m[s.below((uint64_t) h)][s.below((uint64_t) w)] = '*';
    const bool strange = !big && s.chance(1, 15);
    if (strange) {
        char &ch = m[s.below((uint64_t) h)][s.below((uint64_t) w)];
        ch = "x .#"[s.below(4)];
        m[0][0] = '*';
    }
    std::string text;
    for (int i = 0; i < h; ++i) text += m[(size_t) i] + (i + 1 < h || s.chance(3, 4) ? "\n" : "");
    c.desc << "maze " << w << "x" << h << "\n" << (big ? "" : text);
    const std::string path = scratch() + "/maze.txt";
    put(path, text);
    if (s.chance(1, 20)) {
        EnvBox none("maze", scratch() + "/nothing-here.txt");
        CHECK(!none.ok, "maze-missing", "a missing maze file was accepted");
    }
    EnvBox e("maze", path);
    if (w > 50 || h > 50) {
        CHECK(!e.ok, "maze-size", "a maze of %dx%d was accepted", w, h);
        c.nontrivial = true;
        return;
    }
    CHECK(e.ok, "maze-init", "the maze was refused");
    seed_rng((uint32_t) s.below(1u << 31));
    XCSF *x = &e.x;
    EnvMaze *z = (EnvMaze *) x->env;
    CHECK(x->x_dim == 8 && x->y_dim == 1 && x->n_actions == 8, "maze-dim", "dimensions %d/%d/%d", x->x_dim, x->y_dim, x->n_actions);
    CHECK(env_multistep(x) && env_max_payoff(x) == 1, "maze-kind", "not a multi-step problem with unit payoff");
    CHECK(z->xsize == w && z->ysize == h, "maze-read", "maze read as %dx%d", z->xsize, z->ysize);
    for (int i = 0; i < h; ++i)
        for (int j = 0; j < w; ++j) CHECK(z->maze[i][j] == m[(size_t) i][(size_t) j], "maze-read", "cell %d,%d read as %c", j, i, z->maze[i][j]);
    auto at = [&](int px, int py) { return m[(size_t) (((py % h) + h) % h)][(size_t) (((px % w) + w) % w)]; };
    auto sense = [&]() {
        std::vector<double> want;
        bool bad = false;
        for (int j = -1; j < 2; ++j)
            for (int i = -1; i < 2; ++i)
                if (i || j) {
                    auto it = code.find(at(z->xpos + i, z->ypos + j));
                    if (it == code.end()) bad = true;
                    else want.push_back(it->second);
                }
        const double *st = nullptr;
        const bool ex = lib_exits([&] { st = env_get_state(x); });
        CHECK(ex == bad, "maze-code", "%s cell next to the animat %s", bad ? "an undefined" : "a defined", ex ? "refused" : "accepted");
        if (!ex)
            for (int k = 0; k < 8; ++k) CHECK(st[k] == want[(size_t) k], "maze-sense", "at %d,%d sensor %d reads %g, expected %g", z->xpos, z->ypos, k, st[k], want[(size_t) k]);
    };
    int moves = 0, blocked = 0, goals = 0;
    const int trials = s.range(1, 6);
    for (int t = 0; t < trials; ++t) {
        env_reset(x);
        CHECK(!env_is_done(x), "maze-done", "a fresh trial is already over");
        CHECK(z->xpos >= 0 && z->xpos < w && z->ypos >= 0 && z->ypos < h && at(z->xpos, z->ypos) == '*', "maze-start", "trial starts at %d,%d", z->xpos, z->ypos);
        if (s.flip()) { // any empty cell
            std::vector<std::pair<int, int>> v;
            for (int i = 0; i < h; ++i)
                for (int j = 0; j < w; ++j)
                    if (m[(size_t) i][(size_t) j] == '*') v.push_back({j, i});
            auto q = s.pick(v);
            z->xpos = q.first;
            z->ypos = q.second;
        }
        const int steps = s.range(1, 30);
        for (int k = 0; k < steps && !env_is_done(x); ++k) {
            sense();
            const int a = s.range(0, 7), ox = z->xpos, oy = z->ypos;
            const int nx = (((ox + dx[a]) % w) + w) % w, ny = (((oy + dy[a]) % h) + h) % h;
            const char cell = at(nx, ny);
            double r = 0;
            const bool ex = lib_exits([&] { r = env_execute(x, a); });
            if (!code.count(cell)) {
                CHECK(ex, "maze-code", "moved onto the undefined cell '%c'", cell);
                break;
            }
            CHECK(!ex, "maze-code", "moving onto '%c' was refused", cell);
            const bool goal = cell == 'F' || cell == 'G', wall = cell == 'O' || cell == 'Q';
            CHECK(z->xpos == (wall ? ox : nx) && z->ypos == (wall ? oy : ny), "maze-move", "action %d at %d,%d towards '%c' led to %d,%d", a, ox, oy, cell, z->xpos, z->ypos);
            CHECK(r == (goal ? 1 : 0), "maze-reward", "entering '%c' paid %g", cell, r);
            CHECK(env_is_done(x) == goal, "maze-done", "after '%c' the trial is%s over", cell, env_is_done(x) ? "" : " not");
            ++moves;
            blocked += wall;
            goals += goal;
        }
        sense();
        const int bad = s.pick(std::vector<int>{-1, 8, 9, 100});
        CHECK(lib_exits([&] { env_execute(x, bad); }), "maze-action", "action %d was accepted", bad);
    }
    if (!big && s.chance(1, 4)) {
        std::set<std::pair<int, int>> seen, all;
        for (int i = 0; i < h; ++i)
            for (int j = 0; j < w; ++j)
                if (m[(size_t) i][(size_t) j] == '*') all.insert({j, i});
        for (size_t i = 0; i < 40 * all.size(); ++i) {
            env_reset(x);
            seen.insert({z->xpos, z->ypos});
        }
        CHECK(seen == all, "maze-start", "trials start in %zu of the %zu empty cells", seen.size(), all.size());
        c.count("start cell distributions");
    }
    c.count("maze moves", moves);
    c.nontrivial = moves > 5 && blocked && goals;
}

static std::string number(Src &s, double *v)
{
    std::string t;
    switch (s.below(6)) {
        case 0: t = fmt("%d", s.range(0, 9)); break;
        case 1: t = fmt("%d", s.range(-100000, 100000)); break;
        case 2: t = fmt("%.17g", s.uniform(-1, 1)); break;
        case 3: t = fmt("%.17e", s.uniform(-1, 1) * pow(10, s.range(-30, 30))); break;
        case 4: t = fmt("%s%.3f", s.flip() ? "+" : "-", s.unit()); break;
        default: t = fmt("%.1f", s.unit());
    }
    *v = strtod(t.c_str(), nullptr);
    return t;
}
static void csv(Src &s, Case &c)
{
    const int x_dim = s.chance(1, 12) ? s.range(100, 900) : s.range(1, 12), y_dim = s.range(1, 4);
    int n[4];
    n[0] = n[1] = s.chance(1, 12) ? s.range(100, 600) / (x_dim > 99 ? 30 : 1) : s.range(1, 10);
    n[2] = n[3] = s.range(1, 10);
    if (x_dim <= 3 && s.chance(1, 40)) { // long files
        const int k = 2 * s.range(0, 1);
        n[k] = n[k + 1] = s.range(1000, 2500);
    }
    int dim[4] = {x_dim, y_dim, x_dim, y_dim};
    const int fault = s.chance(1, 6) ? s.range(1, 5) : 0;
    if (fault == 1) n[s.below(4)] += s.range(1, 3); // files disagree
    if (fault == 2) dim[2 + s.below(2)] += 1;
    static const char *suffix[] = {"_train_x.csv", "_train_y.csv", "_test_x.csv", "_test_y.csv"};
    const std::string base = scratch() + "/set";
    std::vector<double> v[4];
    size_t longest = 0;
    const bool crlf = s.chance(1, 4), blank = s.chance(1, 3), spaces = s.chance(1, 4);
    for (int f = 0; f < 4; ++f) {
        std::string text;
        for (int i = 0; i < n[f]; ++i) {
            std::string row;
            for (int j = 0; j < dim[f]; ++j) {
                double d;
                row += (j ? "," : "") + std::string(spaces && s.flip() ? " " : "") + number(s, &d);
                v[f].push_back(d);
            }
            longest = std::max(longest, row.size());
            text += row;
            if (i + 1 < n[f] || s.chance(2, 3)) text += crlf ? "\r\n" : "\n";
            if (blank && i + 1 < n[f] && s.chance(1, 4)) text += s.flip() ? "\n" : "  \r\n";
        }
        if (blank && s.flip() && !text.empty() && text.back() == '\n') text += s.flip() ? "\n\n" : " \n";
        put(base + suffix[f], text);
    }
    if (fault == 3) unlink((base + suffix[s.below(4)]).c_str());
    if (fault == 4) put(base + suffix[s.below(4)], s.flip() ? "" : "\n \n");
    if (fault == 5) { // one row short of a value
        const int f = s.range(0, 3);
        std::string text;
        const int bad = s.range(1, 3);
        for (int i = 0; i < n[f] + bad; ++i)
            for (int j = 0; j < dim[f] + 1 - (i == n[f] + bad - 1); ++j) text += fmt("%s1%s", j ? "," : "", j == dim[f] - (i == n[f] + bad - 1) ? "\n" : "");
        put(base + suffix[f], text);
    }
    c.desc << "csv " << n[0] << "+" << n[2] << " rows of " << x_dim << "->" << y_dim << " longest line " << longest << " fault " << fault;
    EnvBox e("csv", base);
    for (auto *q : suffix) unlink((base + q).c_str());
    if (fault) {
        CHECK(!e.ok, "csv-fault", "files with fault %d were accepted", fault);
        c.count("faulty data sets");
        return;
    }
    CHECK(e.ok, "csv-init", "good files were refused");
    XCSF *x = &e.x;
    CHECK(x->x_dim == x_dim && x->y_dim == y_dim && x->n_actions == 1, "csv-dim", "dimensions %d/%d/%d", x->x_dim, x->y_dim, x->n_actions);
    const EnvCSV *z = (const EnvCSV *) x->env;
    const Input *in[2] = {z->train_data, z->test_data};
    for (int k = 0; k < 2; ++k) {
        CHECK(in[k]->n_samples == n[2 * k] && in[k]->x_dim == x_dim && in[k]->y_dim == y_dim, "csv-shape", "%s data read as %d rows of %d -> %d", k ? "test" : "train", in[k]->n_samples, in[k]->x_dim, in[k]->y_dim);
        for (size_t i = 0; i < v[2 * k].size(); ++i) CHECK(same(in[k]->x[i], v[2 * k][i]), "csv-value", "%s x[%zu] read as %.17g, file says %.17g", k ? "test" : "train", i, in[k]->x[i], v[2 * k][i]);
        for (size_t i = 0; i < v[2 * k + 1].size(); ++i) CHECK(same(in[k]->y[i], v[2 * k + 1][i]), "csv-value", "%s y[%zu] read as %.17g, file says %.17g", k ? "test" : "train", i, in[k]->y[i], v[2 * k + 1][i]);
    }
    c.count("data rows", n[0] + n[2]);
    c.nontrivial = longest > 200 || blank || crlf || n[0] > 5;
}

static void config(Src &s, Case &c)
{
    // every number set through its own setter in one system, through a file in the other
    Sys a(2, 1, 2), b(2, 1, 2);
    struct Key {
        const char *name;
        std::function<std::string()> set;
    };
    auto num = [](double v) { return fmt("%.17g", v); };
    std::vector<Key> keys = {
        {"pop_size", [&] { int v = s.range(1, 5000); param_set_pop_size(a, v); return fmt("%d", v); }},
        {"max_trials", [&] { int v = s.range(1, 5000); param_set_max_trials(a, v); return fmt("%d", v); }},
        {"perf_trials", [&] { int v = s.range(1, 5000); param_set_perf_trials(a, v); return fmt("%d", v); }},
        {"pop_init", [&] { bool v = s.flip(); param_set_pop_init(a, v); return std::string(v ? "true" : "false"); }},
        {"loss_func", [&] { const char *n[] = {"mae", "mse", "rmse", "huber"}; const char *q = n[s.below(4)]; param_set_loss_func_string(a, q); return fmt("\"%s\"", q); }},
        {"alpha", [&] { double v = s.unit(); param_set_alpha(a, v); return num(v); }},
        {"beta", [&] { double v = s.unit(); param_set_beta(a, v); return num(v); }},
        {"delta", [&] { double v = s.unit(); param_set_delta(a, v); return num(v); }},
        {"e0", [&] { double v = s.unit(); param_set_e0(a, v); return num(v); }},
        {"nu", [&] { double v = 10 * s.unit(); param_set_nu(a, v); return num(v); }},
        {"theta_del", [&] { int v = s.range(0, 500); param_set_theta_del(a, v); return fmt("%d", v); }},
        {"theta_sub", [&] { int v = s.range(0, 500); param_set_theta_sub(a, v); return fmt("%d", v); }},
        {"gamma", [&] { double v = s.unit(); param_set_gamma(a, v); return num(v); }},
        {"teletransportation", [&] { int v = s.range(1, 500); param_set_teletransportation(a, v); return fmt("%d", v); }},
        {"p_explore", [&] { double v = s.unit(); param_set_p_explore(a, v); return num(v); }},
        {"set_subsumption", [&] { bool v = s.flip(); param_set_set_subsumption(a, v); return std::string(v ? "true" : "false"); }},
        {"stateful", [&] { bool v = s.flip(); param_set_stateful(a, v); return std::string(v ? "true" : "false"); }},
        {"population_file", [&] {
            std::string v, q;
            for (int n = s.range(1, 30); n > 0; --n) {
                const char ch = "abz019._-/ #:,{}\"\\\t"[s.below(19)];
                v += ch;
                if (ch == '\t') q += "\\t";
                else q += (ch == '"' || ch == '\\') ? std::string("\\") + ch : std::string(1, ch);
            }
            param_set_population_file(a, v.c_str());
            return "\"" + q + "\"";
        }},
        {"ea", [&] { double v = s.unit(); int l = 2 * s.range(1, 5); ea_param_set_p_crossover(a, v); ea_param_set_lambda(a, l); return fmt("{ \"p_crossover\": %.17g, \"lambda\": %d }", v, l); }},
    };
    std::string text;
    int lines = 0, remarks = 0;
    auto ws = [&]() -> std::string { return s.pick(std::vector<std::string>{"", " ", "\t", "    ", "\r"}); };
    auto remark = [&]() -> std::string {
        if (!s.chance(1, 3)) return "";
        ++remarks;
        std::string r = "#";
        const int n = s.chance(1, 4) ? s.range(100, 400) : s.range(0, 20);
        for (int i = 0; i < n; ++i) r += "abc #\"{}:,1"[s.below(11)];
        return r;
    };
    auto nl = [&]() -> std::string { ++lines; return remark() + (s.chance(1, 6) ? "\r\n" : "\n") + (s.chance(1, 6) ? ws() + "\n" : ""); };
    const bool compact = s.chance(1, 5); // no white space at all
    std::vector<size_t> order;
    for (size_t i = 0; i < keys.size(); ++i)
        if (s.chance(1, 3)) order.push_back(i);
    for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[s.below(i)]);
    const bool unknown = s.chance(1, 10);
    text += compact ? "{" : nl() + "{" + ws() + nl();
    for (size_t i = 0; i < order.size(); ++i) {
        const std::string val = keys[order[i]].set();
        text += (i ? "," : "") + (compact ? "" : ws() + (s.flip() ? nl() : "")) + "\"" + keys[order[i]].name + "\":" + (compact ? "" : ws()) + val + (compact ? "" : ws());
    }
    if (unknown) text += std::string(order.empty() ? "" : ",") + "\"" + s.pick(std::vector<std::string>{"popsize", "alph", "alphaa", "Beta_", "foo"}) + "\":1";
    text += compact ? "}" : nl() + "}" + (s.flip() ? nl() : "");
    c.desc << "config file:\n" << text;
    const std::string path = scratch() + "/config.json";
    put(path, text);
    const bool ex = lib_exits([&] { config_read(b, path.c_str()); });
    CHECK(ex == unknown, "config-accept", "the file was %s", ex ? "refused" : "accepted in spite of an unknown name");
    if (unknown) return;
    const std::string d = diff(snap_params(a), snap_params(b));
    CHECK(!strcmp(a->population_file, b->population_file), "config-value", "the population file is '%s', the configuration says '%s'", b->population_file, a->population_file);
    CHECK(d.empty(), "config-value", "set directly vs read from the file: %s", d.c_str());
    unlink(path.c_str());
    CHECK(!lib_exits([&] { config_read(b, path.c_str()); }), "config-missing", "a missing configuration ends the program");
    const std::string d2 = diff(snap_params(a), snap_params(b));
    CHECK(d2.empty(), "config-missing", "a missing configuration changed %s", d2.c_str());
    c.count("configuration lines", lines);
    c.nontrivial = order.size() > 2 && (remarks || compact);
}

// the experiment loop, observed from the problem's side
struct Ev {
    char what; // r reset, s state, e execute
    int action;
    double reward;
    bool done, explore;
};
static std::vector<Ev> log_;
static const EnvVtbl *real_;
static Src *drv_;
static bool synth_, multi_, sdone_;
static double sstate_[8];
static int spy_xdim;
static bool spy_done(const XCSF *x) { return synth_ ? sdone_ : real_->env_impl_is_done(x); }
static bool spy_multi(const XCSF *x) { return synth_ ? multi_ : real_->env_impl_multistep(x); }
static double spy_max(const XCSF *x) { return synth_ ? 2.5 : real_->env_impl_max_payoff(x); }
static void spy_free(const XCSF *x) { if (!synth_) real_->env_impl_free(x); }
static void spy_reset(const XCSF *x)
{
    log_.push_back({'r', 0, 0, false, x->explore});
    sdone_ = false;
    if (!synth_) real_->env_impl_reset(x);
}
static const double *spy_state(const XCSF *x)
{
    log_.push_back({'s', 0, 0, false, x->explore});
    if (!synth_) return real_->env_impl_get_state(x);
    for (int i = 0; i < spy_xdim; ++i) sstate_[i] = drv_->unit();
    return sstate_;
}
static double spy_exec(const XCSF *x, const int a)
{
    double r;
    if (synth_) {
        sdone_ = !multi_ || drv_->chance(1, 5);
        r = sdone_ && drv_->flip() ? 2.5 : 0;
    } else
        r = real_->env_impl_execute(x, a);
    log_.push_back({'e', a, r, spy_done(x), x->explore});
    return r;
}
static const EnvVtbl spy_ = {spy_done, spy_multi, spy_exec, spy_max, spy_state, spy_free, spy_reset};

static void experiment(Src &s, Case &c)
{
    const int kind = s.range(0, 2); // maze, mux, synthetic
    std::string arg;
    if (kind == 0) {
        const int w = s.range(2, 6), h = s.range(2, 6);
        for (int i = 0; i < h; ++i) {
            for (int j = 0; j < w; ++j) arg += s.chance(1, 4) ? "OQFG"[s.below(4)] : '*';
            arg += "\n";
        }
        arg[0] = '*';
        put(scratch() + "/maze.txt", arg);
        c.desc << arg;
    }
    EnvBox e(kind == 0 ? "maze" : "mp", kind == 0 ? scratch() + "/maze.txt" : fmt("%d", s.range(3, 11)));
    CHECK(e.ok, "init", "problem refused");
    XCSF *x = &e.x;
    seed_rng((uint32_t) s.below(1u << 31));
    x->OMP_NUM_THREADS = 1;
    param_set_pop_size(x, s.range(100, 300));
    param_set_pop_init(x, false);
    param_set_max_trials(x, s.range(1, 12));
    param_set_perf_trials(x, s.range(1, 5));
    param_set_teletransportation(x, s.range(1, 20));
    param_set_p_explore(x, s.pick(std::vector<double>{0.9, 0, 1, 0.3}));
    cond_param_set_type(x, s.pick(std::vector<int>{COND_TYPE_HYPERRECTANGLE_CSR, COND_TYPE_TERNARY, COND_TYPE_DUMMY}));
    pred_param_set_type(x, s.flip() ? PRED_TYPE_NLMS_LINEAR : PRED_TYPE_CONSTANT);
    xcsf_init(x);
    e.init = true;
    c.desc << (kind == 0 ? "maze" : kind == 1 ? "multiplexer" : "synthetic") << " experiment, " << x->MAX_TRIALS << " trials of at most " << x->TELETRANSPORTATION << " steps";
    const EnvVtbl *keep = real_ = x->env_vptr;
    synth_ = kind == 2;
    multi_ = s.flip();
    spy_xdim = std::min(x->x_dim, 8);
    static double wide[64];
    (void) wide;
    if (synth_ && x->x_dim > 8) synth_ = false;
    drv_ = &s;
    log_.clear();
    x->env_vptr = &spy_;
    double perf = 0;
    const bool ex = lib_exits([&] { perf = xcs_rl_exp(x); });
    x->env_vptr = keep;
    CHECK(!ex, "experiment-exit", "the experiment ended the program");
    // judge the event log
    const bool multi = synth_ ? multi_ : kind == 0;
    int trial = -1, steps = 0;
    double sum = 0, last = 0;
    bool over = true;
    auto finish = [&]() {
        if (trial < 0) return;
        CHECK(over || steps == x->TELETRANSPORTATION, "trial-end", "trial %d ended after %d of %d steps without reaching the end", trial, steps, x->TELETRANSPORTATION);
        CHECK(steps >= 1 && steps <= x->TELETRANSPORTATION, "trial-end", "trial %d took %d steps of at most %d", trial, steps, x->TELETRANSPORTATION);
        if (trial % 2 == 1) sum += multi ? steps : last > 0 ? 1 : 0;
    };
    char prev = 'e';
    for (const Ev &v : log_) {
        if (v.what == 'r') {
            finish();
            CHECK(prev == 'e', "order", "a trial was reset before acting");
            ++trial;
            steps = 0;
            over = false;
        } else if (v.what == 's') {
            CHECK(!over, "trial-end", "trial %d goes on after its end", trial);
        } else {
            CHECK(prev == 's', "order", "an action was executed without looking at the state");
            CHECK(v.action >= 0 && v.action < x->n_actions, "action-range", "action %d of %d", v.action, x->n_actions);
            CHECK(v.explore == (trial % 2 == 0), "alternate", "trial %d is %s", trial, v.explore ? "exploring" : "exploiting");
            ++steps;
            over = v.done;
            last = v.reward;
        }
        prev = v.what;
    }
    finish();
    CHECK(trial + 1 == 2 * x->MAX_TRIALS, "trial-count", "%d trials run, expected %d exploring and as many exploiting", trial + 1, x->MAX_TRIALS);
    CHECK(close(perf, sum / x->MAX_TRIALS), "performance", "reported performance %.17g, observed %.17g", perf, sum / x->MAX_TRIALS);
    c.count("experiment events", (long) log_.size());
    c.nontrivial = multi || x->MAX_TRIALS > 1;
    check_population(x);
}
static void run(Src &s, Case &c)
{
    switch (s.pickw({2, 4, 3, 3, 2})) {
        case 0: return mux(s, c);
        case 1: return maze(s, c);
        case 2: return csv(s, c);
        case 3: return config(s, c);
        default: return experiment(s, c);
    }
}
const Property pbt::property = {
    "C25",
    "generator: multiplexer sizes and inputs, maze maps up to 55x55 with action sequences, sets of CSV files (long rows, blank lines, CRLF, faults), configuration files with comments, and whole reinforcement learning experiments observed through a recording problem; oracle: independent models of the problems, the numbers written to the files, settings applied directly, and the recorded event log; non-trivial: multiplexers beyond one address bit, mazes where moves were blocked and a goal was reached, data files with long rows / blank lines / CRLF / many rows, configurations with several settings and comments, experiments of several steps or trials",
    run, 60000, 1500000, 20};
