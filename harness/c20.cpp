// C20: a training step follows the gradient of the squared error.
#include "ref.hpp"
using namespace pbt;

struct Param {
    double *p;
    std::string name;
    const Layer *part; // dense or convolutional part it belongs to
    bool weight, active, trains, known, known0; // known: gradient is comparable (in the first step)
    double eta, momentum, decay; // as configured
};
static std::vector<Param> params(const std::vector<const Layer *> &ls, const std::vector<ArgsLayer> &args)
{
    std::vector<Param> v;
    // the error signal is not comparable before an LSTM layer, nor are the
    // weights of an LSTM layer or of the self connections of a recurrent one
    // (known findings); a softmax inside a network passes errors unchanged.
    // In the first step there is no memory, and the derivatives of linear
    // and rectifying functions can be taken at activated values: then they are.
    size_t first = 0, first0 = 0;
    auto plain = [](int f) { return f == LINEAR || f == RELU || f == LEAKY; };
    for (size_t i = 0; i < ls.size(); ++i)
        if (ls[i]->type == LSTM || (ls[i]->type == SOFTMAX && i + 1 < ls.size())) {
            first = i + 1;
            if (ls[i]->type == SOFTMAX || !plain(args[i].function) || !plain(args[i].recurrent_function)) first0 = i + 1;
        }
    for (size_t i = 0; i < ls.size(); ++i)
        for (auto &q : dense_parts(const_cast<Layer *>(ls[i]))) {
            const bool trains = args[i].sgd_weights;
            const bool known = i >= first && q.first != "recurrent.self", known0 = i >= first0;
            for (int k = 0; k < q.second->n_weights; ++k)
                v.push_back({&q.second->weights[k], q.first + fmt(" of layer %zu weight %d", i, k), q.second, true, q.second->weight_active[k], trains, known, known0, args[i].eta, args[i].momentum, args[i].decay});
            for (int k = 0; k < q.second->n_biases; ++k)
                v.push_back({&q.second->biases[k], q.first + fmt(" of layer %zu bias %d", i, k), q.second, false, true, trains, known, known0, args[i].eta, args[i].momentum, args[i].decay});
        }
    return v;
}
static void run(Src &s, Case &c)
{
    NetOpt o;
    o.images = s.flip();
    o.evolve = false;
    o.softmax_out = true;
    o.stochastic = s.chance(1, 3);
    o.recurrent = !o.stochastic && s.flip();
    o.max_hidden = 3;
    o.max_neurons = 4;
    o.big = s.chance(1, 12);
    const int n_in = o.big ? (o.images ? s.pick(std::vector<int>{25, 36, 48}) : s.range(6, 24)) : o.images ? s.pick(std::vector<int>{4, 6, 9, 12, 16}) : s.range(1, 5);
    const int n_out = s.range(1, o.big ? 12 : 3);
    std::vector<ArgsLayer> v = gen_net(s, n_in, n_out, o);
    bool rnd = false;
    const bool softmax = v.back().type == SOFTMAX;
    for (ArgsLayer &a : v) {
        a.evolve_eta = false;
        if (s.flip()) a.momentum = 0, a.decay = 0;
        if (a.sgd_weights) a.eta = s.pick(std::vector<double>{0.01, 0.1, 0.001, 0.5});
        if (a.type == LSTM && s.flip()) {
            static const int f[] = {LINEAR, RELU, LEAKY};
            a.function = f[s.below(3)];
            a.recurrent_function = f[s.below(3)];
        }
        rnd = rnd || a.type == DROPOUT || a.type == NOISE;
    }
    c.desc << "in " << n_in << " " << net_str(v);
    seed_rng((uint32_t) s.below(1u << 31));
    NetBox b(v);
    const uint64_t wseed = s.below(1u << 30);
    const double wscale = s.pick(std::vector<double>{0.5, 1, 2}), wzero = s.chance(1, 3) ? 0.3 : 0;
    fill_weights(&b.n, wseed, wscale, wzero);
    // a twin with half the learning rate and no decay: its first step tells
    // what those two contribute, whatever the gradient is
    std::vector<ArgsLayer> tv = v;
    for (ArgsLayer &a : tv) a.eta /= 2, a.decay = 0;
    NetBox tb(tv);
    fill_weights(&tb.n, wseed, wscale, wzero);
    std::vector<Param> tps = params(net_layers(&tb.n), tv);
    const std::vector<const Layer *> ls = net_layers(&b.n);
    std::vector<Param> ps = params(ls, v);
    if (ps.size() > 300) { // measure the gradient of some of the parameters only
        const size_t one_in = ps.size() / 150, off = s.below(97);
        for (size_t k = 0; k < ps.size(); ++k)
            if (((k + off) * 2654435761u >> 7) % one_in) ps[k].known = ps[k].known0 = false;
    }
    std::vector<double> vel(ps.size(), 0.0), slack(ps.size(), 0.0);
    std::vector<bool> blind(ps.size(), false); // velocity no longer known
    int compared = 0, moved = 0, skipped = 0;
    const int steps = s.range(1, 3);
    for (int t = 0; t < steps; ++t) {
        std::vector<double> x((size_t) n_in), y((size_t) n_out);
        for (double &e : x) e = s.uniform(-1.5, 1.5);
        double sum = 0;
        for (double &e : y) e = softmax ? s.uniform(0.05, 1) : s.uniform(-1.5, 1.5), sum += e;
        if (softmax)
            for (double &e : y) e /= sum;
        const uint32_t seed = (uint32_t) s.below(1u << 31);
        // memory of recurrent layers before the input
        RefMem mem;
        for (const Layer *l : ls) {
            if (l->type == RECURRENT) mem.out[l] = std::vector<double>(l->output_layer->output, l->output_layer->output + l->n_outputs);
            if (l->type == LSTM) {
                mem.out[l] = std::vector<double>(l->h, l->h + l->n_outputs);
                mem.cell[l] = std::vector<double>(l->c, l->c + l->n_outputs);
            }
        }
        auto loss = [&]() {
            std::vector<double> out;
            if (rnd) {
                seed_rng(seed); // same dropped units and noise each time
                neural_propagate(&b.n, x.data(), true);
                out.assign(neural_outputs(&b.n), neural_outputs(&b.n) + n_out);
            } else {
                RefMem m = mem;
                out = ref_net(&b.n, x.data(), &m).back();
            }
            double e = 0;
            for (int i = 0; i < n_out; ++i) {
                if (softmax) e -= y[(size_t) i] * log(out[(size_t) i]);
                else e += 0.5 * (y[(size_t) i] - out[(size_t) i]) * (y[(size_t) i] - out[(size_t) i]);
            }
            return e;
        };
        // measured gradient
        std::vector<double> g(ps.size(), 0.0), w0(ps.size());
        std::vector<double> gap(ps.size(), 0.0);
        std::vector<bool> smooth(ps.size(), false);
        const double e0 = loss();
        for (size_t k = 0; k < ps.size(); ++k) {
            w0[k] = *ps[k].p;
            if (!(t ? ps[k].known : ps[k].known0) || !ps[k].trains) continue;
            const double h = 1e-5;
            *ps[k].p = w0[k] + h;
            const double e1 = loss();
            *ps[k].p = w0[k] - h;
            const double e2 = loss();
            *ps[k].p = w0[k];
            const double d1 = (e1 - e0) / h, d2 = (e0 - e2) / h;
            g[k] = (e1 - e2) / (2 * h);
            gap[k] = fabs(d1 - d2);
            // kinks (rectifiers, maxima, limits) have no gradient
            smooth[k] = std::isfinite(g[k]) && fabs(d1 - d2) < 2e-3 * (1 + fabs(g[k]));
        }
        if (rnd) seed_rng(seed);
        neural_propagate(&b.n, x.data(), true);
        for (size_t k = 0; k < ps.size(); ++k) CHECK(*ps[k].p == w0[k], "propagate", "propagation moved %s", ps[k].name.c_str());
        // at the limit of neuron states the true gradient is zero but errors pass
        for (const Layer *l : ls)
            for (auto &q : dense_parts(const_cast<Layer *>(l)))
                for (int i = 0; i < q.second->n_outputs; ++i)
                    if (fabs(q.second->state[i]) > 99) throw Discard();
        if (softmax) // saturated: the loss cannot be measured
            for (int i = 0; i < n_out; ++i)
                if (neural_outputs(&b.n)[i] < 1e-9) throw Discard();
        for (const Layer *l : ls)
            if (l->type == LSTM)
                for (int i = 0; i < l->n_outputs; ++i)
                    for (double v : {l->wf->output[i] + l->uf->output[i], l->wi->output[i] + l->ui->output[i], l->wg->output[i] + l->ug->output[i], l->wo->output[i] + l->uo->output[i], l->c[i]})
                        if (fabs(v) > 99) throw Discard();
        neural_learn(&b.n, y.data(), x.data());
        if (t == 0 && !rnd) {
            CHECK(tps.size() == ps.size(), "twin", "two networks of one configuration have %zu and %zu parameters", tps.size(), ps.size());
            bool same = true;
            for (size_t k = 0; k < ps.size(); ++k) same = same && *tps[k].p == w0[k] && tps[k].active == ps[k].active;
            if (same) {
                neural_propagate(&tb.n, x.data(), true);
                // with another error in proportion
                const double part = s.pick(std::vector<double>{1, 0.25, 2, -1});
                std::vector<double> y2 = y;
                for (int i = 0; i < n_out; ++i) y2[(size_t) i] = neural_outputs(&tb.n)[i] + part * (y[(size_t) i] - neural_outputs(&tb.n)[i]);
                neural_learn(&tb.n, y2.data(), x.data());
                for (size_t k = 0; k < ps.size(); ++k) {
                    const Param &q = ps[k];
                    if (!q.trains || q.eta <= 0 || (q.weight && !q.active) || fabs(*q.p) >= 9.999999 || fabs(*tps[k].p) >= 9.999999) continue;
                    const double d1 = (*q.p - w0[k]) / q.eta + (q.weight && q.decay > 0 ? q.decay * w0[k] : 0), d2 = (*tps[k].p - w0[k]) / (q.eta / 2) / part;
                    CHECK(fabs(d1 - d2) <= 1e-9 * (1 + fabs(d1) + fabs(d2)) + 4e-13 / q.eta, "proportion", "%s: a step per unit of learning rate (less decay) is %.12g at rate %g and %.12g at half of it with %g of the error",
                          q.name.c_str(), d1, q.eta, d2, part);
                }
                c.count("steps compared with a twin");
            }
        }
        for (size_t k = 0; k < ps.size(); ++k) {
            const Param &q = ps[k];
            const double w1 = *q.p;
            CHECK(std::isfinite(w1) && fabs(w1) <= 10 + 1e-12, "limit", "%s is %g", q.name.c_str(), w1);
            if (!q.trains || q.eta <= 0) {
                CHECK(w1 == w0[k], "untrained", "%s is not trained but moved from %.12g to %.12g", q.name.c_str(), w0[k], w1);
                continue;
            }
            if (q.weight && !q.active) {
                CHECK(w1 == 0, "pruned", "%s is pruned but became %g", q.name.c_str(), w1);
                continue;
            }
            if (w1 != w0[k]) ++moved;
            if (!smooth[k]) blind[k] = true;
            if (!(t ? q.known : q.known0) || blind[k]) {
                ++skipped;
                continue;
            }
            double step = -g[k];
            if (q.weight && q.decay > 0) step -= q.decay * w0[k];
            vel[k] = q.momentum * vel[k] + step;
            const double want = std::max(-10.0, std::min(10.0, w0[k] + q.eta * vel[k]));
            slack[k] = q.momentum * slack[k] + gap[k] + fabs(e0) * 1e-9; // a slight kink: the gradient is one of its sides
            const double tol = 1e-12 + q.eta * slack[k] + q.eta * 1e-4 * (0.02 + fabs(g[k]) + fabs(vel[k]));
            if (fabs(w1 - want) > tol) { // can the gradient be measured at all?
                std::vector<double> now(ps.size());
                for (size_t j = 0; j < ps.size(); ++j) now[j] = *ps[j].p, *ps[j].p = w0[j];
                double lo = g[k], hi = g[k];
                for (double h : {1e-4, 3e-6, 1e-6, 3e-7}) {
                    *q.p = w0[k] + h;
                    const double e1 = loss();
                    *q.p = w0[k] - h;
                    const double e2 = loss(), v = (e1 - e2) / (2 * h);
                    lo = std::min(lo, v), hi = std::max(hi, v);
                }
                for (size_t j = 0; j < ps.size(); ++j) *ps[j].p = now[j];
                const double spread = hi - lo;
                if (!(fabs(w1 - want) > tol + 3 * q.eta * spread)) {
                    blind[k] = true;
                    ++skipped;
                    c.count("gradients that cannot be measured");
                    continue;
                }
            }
            CHECK(fabs(w1 - want) <= tol, "step", "%s moved by %.9g, expected %.9g (gradient %.9g, rate %g, momentum %g, decay %g)", q.name.c_str(),
                  w1 - w0[k], want - w0[k], g[k], q.eta, q.momentum, q.decay);
            ++compared;
        }
    }
    for (const Layer *l : ls) c.count(layer_type_as_string(l->type));
    c.count("parameters compared", compared);
    c.count("parameters at kinks or excluded", skipped);
    c.nontrivial = compared >= 3 && moved >= 1;
}
const Property pbt::property = {
    "C20",
    "a case is a random network with random weights trained for one to three steps; each trainable parameter's movement is compared with the measured gradient, momentum and decay included; non-trivial: at least three parameters were compared and one moved",
    run, 30000, 800000, 20};
