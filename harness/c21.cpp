// C21: evolving a network keeps it structurally consistent.
#include "ref.hpp"
#include <array>
using namespace pbt;

static void dense_ok(const std::string &name, const Layer *l, int in, int out)
{
    CHECK(l->n_inputs == in && l->n_outputs == out, "part-size", "%s is %dx%d, expected %dx%d", name.c_str(), l->n_inputs, l->n_outputs, in, out);
    CHECK(l->n_weights == in * out && l->n_biases == out, "part-count", "%s has %d weights and %d biases for %dx%d", name.c_str(), l->n_weights, l->n_biases, in, out);
}
static void values_ok(const std::string &name, const Layer *l)
{
    int act = 0;
    for (int i = 0; i < l->n_weights; ++i) {
        act += l->weight_active[i];
        if (!l->weight_active[i]) CHECK(l->weights[i] == 0, "pruned", "%s: pruned weight %d is %g", name.c_str(), i, l->weights[i]);
        CHECK(fabs(l->weights[i]) <= 10, "weight-range", "%s: weight %d is %g", name.c_str(), i, l->weights[i]);
    }
    for (int i = 0; i < l->n_biases; ++i) CHECK(fabs(l->biases[i]) <= 10, "weight-range", "%s: bias %d is %g", name.c_str(), i, l->biases[i]);
    CHECK(l->n_active == act, "n-active", "%s declares %d active weights, has %d", name.c_str(), l->n_active, act);
}
static void consistent(Net *n, int n_in, int n_out, const std::vector<ArgsLayer> &args)
{
    const std::vector<const Layer *> ls = net_layers(n);
    CHECK(n->n_layers == (int) ls.size(), "n-layers", "%d layers declared, %zu present", n->n_layers, ls.size());
    CHECK(n->n_inputs == n_in && n->n_outputs == n_out, "net-size", "network is %d to %d, expected %d to %d", n->n_inputs, n->n_outputs, n_in, n_out);
    CHECK(ls.front()->n_inputs == n_in && ls.back()->n_outputs == n_out, "net-size", "outer layers are %d to %d, expected %d to %d", ls.front()->n_inputs, ls.back()->n_outputs, n_in, n_out);
    CHECK(ls.size() == args.size(), "n-layers", "%zu layers, %zu configured", ls.size(), args.size());
    // back links
    int back = 0;
    for (const Llist *p = n->head; p; p = p->next) {
        ++back;
        CHECK(p->next == nullptr ? p == n->tail : p->next->prev == p, "links", "layer list is broken");
    }
    CHECK(back == n->n_layers, "links", "%d layers from the output side, %d declared", back, n->n_layers);
    double size = 0;
    for (size_t i = 0; i < ls.size(); ++i) {
        Layer *l = const_cast<Layer *>(ls[i]);
        const std::string nm = fmt("layer %zu (%s)", i, layer_type_as_string(l->type));
        if (i) {
            const Layer *p = ls[i - 1];
            CHECK(l->n_inputs == p->n_outputs, "chain", "%s takes %d inputs from %d outputs", nm.c_str(), l->n_inputs, p->n_outputs);
            if (l->type == CONVOLUTIONAL || l->type == MAXPOOL || l->type == AVGPOOL || l->type == UPSAMPLE)
                CHECK(l->height == p->out_h && l->width == p->out_w && l->channels == p->out_c, "image", "%s takes %dx%dx%d from %dx%dx%d", nm.c_str(), l->height, l->width, l->channels, p->out_h, p->out_w, p->out_c);
        }
        CHECK(l->n_outputs >= 1, "n-outputs", "%s has %d outputs", nm.c_str(), l->n_outputs);
        CHECK(l->out_h * l->out_w * l->out_c == l->n_outputs, "shape", "%s has %d outputs shaped %dx%dx%d", nm.c_str(), l->n_outputs, l->out_h, l->out_w, l->out_c);
        switch (l->type) {
            case CONNECTED:
                dense_ok(nm, l, l->n_inputs, l->n_outputs);
                CHECK(l->n_outputs <= args[i].n_max, "max", "%s has %d neurons, at most %d", nm.c_str(), l->n_outputs, args[i].n_max);
                break;
            case CONVOLUTIONAL:
                CHECK(l->n_filters >= 1 && l->n_filters <= args[i].n_max, "max", "%s has %d filters, at most %d", nm.c_str(), l->n_filters, args[i].n_max);
                CHECK(l->n_weights == l->n_filters * l->channels * l->size * l->size && l->n_biases == l->n_filters && l->out_c == l->n_filters, "conv-count", "%s: %d weights, %d biases for %d filters", nm.c_str(), l->n_weights, l->n_biases, l->n_filters);
                CHECK(l->n_inputs == l->height * l->width * l->channels, "conv-input", "%s takes %d inputs shaped %dx%dx%d", nm.c_str(), l->n_inputs, l->height, l->width, l->channels);
                break;
            case RECURRENT:
                dense_ok(nm + ".input", l->input_layer, l->n_inputs, l->n_outputs);
                dense_ok(nm + ".self", l->self_layer, l->n_outputs, l->n_outputs);
                dense_ok(nm + ".output", l->output_layer, l->n_outputs, l->n_outputs);
                CHECK(l->function == l->output_layer->function, "function", "%s declares function %d and applies %d", nm.c_str(), l->function, l->output_layer->function);
                CHECK(l->n_outputs <= args[i].n_max, "max", "%s has %d neurons, at most %d", nm.c_str(), l->n_outputs, args[i].n_max);
                break;
            case LSTM:
                for (Layer *q : {l->uf, l->ui, l->ug, l->uo}) dense_ok(nm + ".u", q, l->n_inputs, l->n_outputs);
                for (Layer *q : {l->wf, l->wi, l->wg, l->wo}) dense_ok(nm + ".w", q, l->n_outputs, l->n_outputs);
                CHECK(l->n_outputs <= args[i].n_max, "max", "%s has %d neurons, at most %d", nm.c_str(), l->n_outputs, args[i].n_max);
                break;
            default: break;
        }
        int w = 0, b = 0, a = 0;
        for (auto &p : dense_parts(l)) {
            values_ok(nm + " " + p.first, p.second);
            w += p.second->n_weights, b += p.second->n_biases, a += p.second->n_active;
            CHECK(p.second->eta >= std::min(args[i].eta_min, args[i].eta) - 1e-15 && p.second->eta <= args[i].eta + 1e-15, "eta", "%s learning rate %g outside [%g,%g]", nm.c_str(), p.second->eta, args[i].eta_min, args[i].eta);
            CHECK(p.second->eta == l->eta, "eta-shared", "%s: parts learn at %g, layer at %g", nm.c_str(), p.second->eta, l->eta);
        }
        if (!dense_parts(l).empty()) {
            CHECK(l->n_weights == w && l->n_biases == b && l->n_active == a, "totals", "%s declares %d weights, %d biases, %d active but has %d, %d, %d", nm.c_str(), l->n_weights, l->n_biases, l->n_active, w, b, a);
            CHECK(l->function >= 0 && l->function < NUM_ACTIVATIONS, "function", "%s has function %d", nm.c_str(), l->function);
            size += a;
        }
    }
    CHECK(neural_size(n) == size, "size", "network size %g, active weights %g", neural_size(n), size);
}
// every layer computes its function on the current parameters
static void evaluates(Net *n, Src &s)
{
    const std::vector<const Layer *> ls = net_layers(n);
    std::vector<double> x((size_t) n->n_inputs);
    for (double &e : x) e = s.uniform(-1, 1);
    RefMem before;
    for (const Layer *l : ls) {
        if (l->type == RECURRENT) before.out[l] = std::vector<double>(l->output_layer->output, l->output_layer->output + l->n_outputs);
        if (l->type == LSTM) {
            before.out[l] = std::vector<double>(l->h, l->h + l->n_outputs);
            before.cell[l] = std::vector<double>(l->c, l->c + l->n_outputs);
        }
    }
    neural_propagate(n, x.data(), false);
    std::vector<double> in = x;
    for (const Layer *l : ls) {
        const std::vector<double> want = ref_layer(l, in, &before);
        const double *got = layer_output(l);
        for (int i = 0; i < l->n_outputs; ++i)
            CHECK(std::isfinite(got[i]) && close(got[i], want[(size_t) i], 1e-8, 1e-9), "value", "after evolution layer type %d output %d is %.12g, expected %.12g", l->type, i, got[i], want[(size_t) i]);
        in.assign(got, got + l->n_outputs);
    }
    for (int i = 0; i < n->n_outputs; ++i) CHECK(n->output[i] == in[(size_t) i] || neural_output(n, i) == in[(size_t) i], "output", "network output differs from its last layer");
}
struct Was {
    int n_in, n_out, f, rf, filters;
    double eta;
    std::vector<std::vector<double>> w, b;
    std::vector<std::vector<bool>> a;
};
static Was was(const Layer *l)
{
    Was r{l->n_inputs, l->n_outputs, l->function, l->recurrent_function, l->n_filters, l->eta, {}, {}, {}};
    for (auto &p : dense_parts(const_cast<Layer *>(l))) {
        r.w.emplace_back(p.second->weights, p.second->weights + p.second->n_weights);
        r.b.emplace_back(p.second->biases, p.second->biases + p.second->n_biases);
        r.a.emplace_back(p.second->weight_active, p.second->weight_active + p.second->n_weights);
    }
    return r;
}
static void only_enabled(const std::vector<Was> &before, const std::vector<const Layer *> &ls, const std::vector<ArgsLayer> &args, Case &c)
{
    for (size_t i = 0; i < ls.size(); ++i) {
        const Layer *l = ls[i];
        if (dense_parts(const_cast<Layer *>(l)).empty()) continue;
        const Was &o = before[i], n = was(l);
        const ArgsLayer &op = args[i]; // as configured
        const char *t = layer_type_as_string(l->type);
        if (!op.evolve_functions) CHECK(o.f == n.f && (l->type != LSTM || o.rf == n.rf), "not-enabled", "%s: activation function changed although it is fixed", t);
        if (!op.evolve_eta) CHECK(o.eta == n.eta, "not-enabled", "%s: learning rate changed although it is fixed", t);
        const int size0 = l->type == CONVOLUTIONAL ? o.filters : o.n_out, size1 = l->type == CONVOLUTIONAL ? n.filters : n.n_out;
        if (!op.evolve_neurons) CHECK(size0 == size1, "not-enabled", "%s: number of neurons changed from %d to %d although it is fixed", t, size0, size1);
        else {
            const int grow = op.max_neuron_grow;
            CHECK(abs(size1 - size0) <= grow, "grow", "%s: number of neurons changed from %d to %d, at most %d at a time", t, size0, size1, grow);
        }
        if (size0 != size1) c.count("neurons changed");
        if (o.f != n.f) c.count("functions changed");
        if (o.eta != n.eta) c.count("rates changed");
        if (o.n_in == n.n_in && size0 == size1) {
            if (!op.evolve_connect) CHECK(o.a == n.a, "not-enabled", "%s: connectivity changed although it is fixed", t);
            else if (o.a != n.a) c.count("connectivity changed");
            if (!op.evolve_weights && !op.evolve_connect) CHECK(o.w == n.w, "not-enabled", "%s: weights changed although they are fixed", t);
            if (!op.evolve_weights) {
                CHECK(o.b == n.b, "not-enabled", "%s: biases changed although they are fixed", t);
                for (size_t p = 0; p < o.w.size(); ++p)
                    for (size_t k = 0; k < o.w[p].size(); ++k)
                        if (o.a[p][k] && n.a[p][k]) {
                            // pruned and re-enabled for representation is a new connection
                            if (!op.evolve_connect) CHECK(o.w[p][k] == n.w[p][k], "not-enabled", "%s: a weight changed although it is fixed", t);
                        }
            } else if (o.w != n.w) c.count("weights changed");
        } else if (!op.evolve_weights && !op.evolve_connect) {
            // growing or shrinking keeps what stays of every part
            size_t p = 0;
            for (auto &part : dense_parts(const_cast<Layer *>(l))) {
                const size_t nb0 = o.b[p].size(), nb1 = n.b[p].size(), in0 = o.w[p].size() / nb0, in1 = n.w[p].size() / nb1;
                for (size_t k = 0; k < std::min(nb0, nb1); ++k) CHECK(o.b[p][k] == n.b[p][k], "keep", "%s: resizing changed bias %zu, which stays, from %g to %g", part.first.c_str(), k, o.b[p][k], n.b[p][k]);

                for (size_t r = 0; r < std::min(nb0, nb1); ++r)
                    for (size_t k = 0; k < std::min(in0, in1); ++k)
                        CHECK(o.w[p][r * in0 + k] == n.w[p][r * in1 + k], "keep", "%s: resizing changed weight %zu of unit %zu, which stays", part.first.c_str(), k, r);
                ++p;
            }
        }
        if (l->type == CONNECTED && size0 == size1 && o.n_in == n.n_in && o.a != n.a && n.n_in > 1 && n.n_out > 1) {
            for (int r = 0; r < n.n_out; ++r) {
                int k = 0;
                for (int q = 0; q < n.n_in; ++q) k += n.a[0][(size_t) (r * n.n_in + q)];
                CHECK(k > 0, "cut-off", "unit %d lost all its connections", r);
            }
            for (int q = 0; q < n.n_in; ++q) {
                int k = 0;
                for (int r = 0; r < n.n_out; ++r) k += n.a[0][(size_t) (r * n.n_in + q)];
                CHECK(k > 0, "cut-off", "input %d lost all its connections", q);
            }
        }
    }
}
// with high rates every enabled aspect changes before long: of 300 mutations
// each changes it with a probability of at least a tenth (missed: below 1e-13)
static void all_enabled(Net *n, const std::vector<ArgsLayer> &args, Case &c)
{
    const std::vector<const Layer *> ls = net_layers(n);
    enum { FUNC, ETA, NEUR, CONN, WGHT, N };
    std::vector<std::array<bool, N>> wait(ls.size());
    size_t left = 0;
    bool stable = true; // the number of weights
    for (size_t i = 0; i < ls.size(); ++i) {
        const ArgsLayer &a = args[i];
        wait[i] = {};
        stable = stable && !a.evolve_neurons;
        if (dense_parts(const_cast<Layer *>(ls[i])).empty()) continue;
        wait[i] = {a.evolve_functions, a.evolve_eta && a.eta > a.eta_min + 1e-3, a.evolve_neurons && a.n_max > 1 && a.max_neuron_grow > 0,
                   a.evolve_connect && stable && ls[i]->n_inputs > 1 && ls[i]->n_outputs > 1 && ls[i]->n_weights > 1, a.evolve_weights};
        for (bool w : wait[i]) left += w;
    }
    for (int t = 0; t < 300 && left > 0; ++t) {
        std::vector<Was> w;
        for (const Layer *l : ls) {
            w.push_back(was(l));
            if (l->mu && !dense_parts(const_cast<Layer *>(l)).empty())
                for (int k = 0; k < 6; ++k) l->mu[k] = t % 2 ? 0.3 : 1;
        }
        neural_mutate(n);
        left = 0;
        for (size_t i = 0; i < ls.size(); ++i) {
            const Was now = was(ls[i]);
            const bool same = w[i].n_in == now.n_in && w[i].n_out == now.n_out && w[i].filters == now.filters;
            if (w[i].f != now.f) wait[i][FUNC] = false;
            if (w[i].eta != now.eta) wait[i][ETA] = false;
            if (w[i].b.empty() || w[i].b[0].size() != now.b[0].size()) wait[i][NEUR] = false;
            if (same && w[i].a != now.a) wait[i][CONN] = false;
            if (same && w[i].b != now.b) wait[i][WGHT] = false;
            for (bool q : wait[i]) left += q;
        }
    }
    const char *name[] = {"activation function", "learning rate", "number of neurons", "connectivity", "weights"};
    for (size_t i = 0; i < ls.size(); ++i)
        for (int k = 0; k < N; ++k)
            CHECK(!wait[i][(size_t) k], "enabled", "layer %zu (%s): %s never changed in 300 mutations although it may evolve", i, layer_type_as_string(ls[i]->type), name[k]);
    c.count("every enabled aspect changed");
}
static void run(Src &s, Case &c)
{
    NetOpt o;
    o.images = s.flip();
    o.softmax_out = true;
    o.max_hidden = 3;
    o.max_neurons = 4;
    o.big = s.chance(1, 12);
    const int n_in = o.big ? (o.images ? s.pick(std::vector<int>{25, 36, 48}) : s.range(6, 24)) : o.images ? s.pick(std::vector<int>{4, 6, 9, 12, 16}) : s.range(1, 5);
    const int n_out = s.range(1, o.big ? 12 : 3);
    std::vector<ArgsLayer> v = gen_net(s, n_in, n_out, o);
    c.desc << "in " << n_in << " " << net_str(v);
    seed_rng((uint32_t) s.below(1u << 31));
    auto b = std::make_unique<NetBox>(v);
    std::vector<ArgsLayer> args = v; // of the layers now in the network
    consistent(&b->n, n_in, n_out, args);
    int muts = 0, struct_ch = 0;
    const int steps = s.range(2, 12);
    for (int t = 0; t < steps; ++t) {
        std::vector<const Layer *> ls = net_layers(&b->n);
        switch (s.pickw({7, 2, 1, 1, 1, 1})) {
            case 0: {
                // rates vary over their whole legal range
                for (const Layer *l : ls)
                    if (l->mu && s.chance(2, 3) && (l->type == CONNECTED || l->type == RECURRENT || l->type == LSTM || l->type == CONVOLUTIONAL))
                        for (int k = 0; k < 6; ++k) l->mu[k] = s.pick(std::vector<double>{0.1, 0.05, 0.0005, 0.5, 1});
                std::vector<Was> w;
                for (const Layer *l : ls) w.push_back(was(l));
                const Snap s0 = snap_net(&b->n, 0);
                const bool rep = neural_mutate(&b->n);
                ++muts;
                consistent(&b->n, n_in, n_out, args);
                only_enabled(w, ls, args, c);
                const std::string d = diff(s0, snap_net(&b->n, 0));
                if (!rep) CHECK(d.empty(), "silent", "mutation reports no change but: %s", d.c_str());
                else CHECK(!d.empty(), "false-change", "mutation reports a change but the network is the same");
                for (size_t i = 0; i < ls.size(); ++i) struct_ch += w[i].n_out != ls[i]->n_outputs;
                break;
            }
            case 1: {
                std::vector<double> x((size_t) n_in), y((size_t) n_out);
                for (double &e : x) e = s.uniform(-1, 1);
                for (double &e : y) e = s.uniform(-1, 1);
                neural_propagate(&b->n, x.data(), true);
                neural_learn(&b->n, y.data(), x.data());
                break;
            }
            case 2: {
                const Snap s0 = snap_net(&b->n, S_MU);
                auto b2 = std::make_unique<NetBox>(v);
                neural_free(&b2->n);
                neural_copy(&b2->n, &b->n);
                std::string d = diff(s0, snap_net(&b2->n, S_MU));
                CHECK(d.empty(), "copy", "copied network differs: %s", d.c_str());
                // independence in both directions
                neural_mutate(&b2->n);
                std::vector<double> x((size_t) n_in, 0.3), y((size_t) n_out, 0.1);
                neural_propagate(&b2->n, x.data(), true);
                neural_learn(&b2->n, y.data(), x.data());
                d = diff(s0, snap_net(&b->n, S_MU));
                CHECK(d.empty(), "copy-shared", "changing a copy changed the original: %s", d.c_str());
                if (s.flip()) std::swap(b, b2); // go on with the copy
                break;
            }
            case 3: {
                // insert a layer of any width, then let the next one follow
                if (ls.size() > 6) break;
                const int pos = s.range(0, (int) ls.size() - 1);
                const Layer *nx = ls[(size_t) pos];
                if (nx->type != CONNECTED && nx->type != RECURRENT && nx->type != LSTM) break;
                ArgsLayer a;
                layer_args_init(&a);
                a.type = s.pick(std::vector<int>{CONNECTED, RECURRENT, LSTM});
                a.n_inputs = nx->n_inputs;
                a.n_init = s.range(1, 4);
                a.n_max = a.n_init + 2;
                a.max_neuron_grow = 1;
                a.evolve_weights = a.evolve_neurons = true;
                a.evolve_connect = s.flip();
                a.eta = 0.1;
                a.sgd_weights = true;
                a.function = TANH;
                a.recurrent_function = LOGISTIC;
                neural_insert(&b->n, layer_init(&a), pos);
                args.insert(args.begin() + pos, a);
                neural_resize(&b->n);
                ++struct_ch;
                c.count("inserted");
                break;
            }
            case 4: {
                if (ls.size() < 2) break;
                const int pos = s.range(0, (int) ls.size() - 2);
                const Layer *l = ls[(size_t) pos], *nx = ls[(size_t) pos + 1];
                if (nx->type != CONNECTED && nx->type != RECURRENT && nx->type != LSTM) break;
                if (pos == 0 && nx->n_inputs != l->n_inputs) break; // would change the network's input
                neural_remove(&b->n, pos);
                args.erase(args.begin() + pos);
                neural_resize(&b->n);
                ++struct_ch;
                c.count("removed");
                break;
            }
            default: {
                neural_rand(&b->n);
            }
        }
        consistent(&b->n, n_in, n_out, args);
        evaluates(&b->n, s);
    }
    if (s.chance(1, 10)) {
        all_enabled(&b->n, args, c);
        consistent(&b->n, n_in, n_out, args);
    }
    for (const Layer *l : net_layers(&b->n)) c.count(layer_type_as_string(l->type));
    c.nontrivial = muts > 0 && struct_ch > 0;
}
const Property pbt::property = {
    "C21",
    "a case is a random network and up to twelve operations (mutation with rates over their whole range, training step, copy, insertion, removal, randomisation), with structure, counts, ranges and evaluation checked after each; non-trivial: mutated at least once and its structure (layer widths or layers) changed",
    run, 60000, 2000000, 20};
