// C19: layers compute the functions they are named after.
#include "ref.hpp"
using namespace pbt;

static void check_exported(const Layer *l, const cJSON *j)
{
    static const std::map<int, const char *> name = {{CONNECTED, "connected"}, {DROPOUT, "dropout"}, {NOISE, "noise"}, {SOFTMAX, "softmax"}, {RECURRENT, "recurrent"}, {LSTM, "lstm"}, {MAXPOOL, "maxpool"}, {CONVOLUTIONAL, "convolutional"}, {AVGPOOL, "avgpool"}, {UPSAMPLE, "upsample"}};
    CHECK(j != nullptr, "export", "a layer is missing from the export");
    const cJSON *t = cJSON_GetObjectItem(j, "type");
    CHECK(t && cJSON_IsString(t) && name.at(l->type) == std::string(t->valuestring), "export", "layer type %d exported as %s", l->type, t && t->valuestring ? t->valuestring : "?");
    auto num = [&](const char *k, double v) {
        const cJSON *e = cJSON_GetObjectItem(j, k);
        if (e) CHECK(cJSON_IsNumber(e) && close(e->valuedouble, v), "export", "%s exported as %g, is %g", k, e->valuedouble, v);
    };
    num("n_inputs", l->n_inputs);
    num("n_outputs", l->n_outputs);
    if (l->type == CONNECTED || l->type == CONVOLUTIONAL || l->type == RECURRENT || l->type == LSTM) num("eta", l->eta);
    for (auto &p : dense_parts(const_cast<Layer *>(l))) {
        std::string key = "weights";
        const size_t dot = p.first.find('.');
        if (dot != std::string::npos) key = p.first.substr(dot + 1) + "_layer";
        const cJSON *w = cJSON_GetObjectItem(j, key.c_str());
        CHECK(w != nullptr, "export", "%s missing from the export", key.c_str());
        const cJSON *a = cJSON_GetObjectItem(w, "weights"), *b = cJSON_GetObjectItem(w, "biases");
        CHECK(a && b && cJSON_GetArraySize(a) == p.second->n_weights && cJSON_GetArraySize(b) == p.second->n_biases, "export", "%s exported with another number of weights", p.first.c_str());
        int i = 0;
        for (const cJSON *e = a->child; e; e = e->next, ++i) CHECK(close(e->valuedouble, p.second->weights[i], 1e-12), "export", "%s weight %d exported as %g, is %g", p.first.c_str(), i, e->valuedouble, p.second->weights[i]);
        i = 0;
        for (const cJSON *e = b->child; e; e = e->next, ++i) CHECK(close(e->valuedouble, p.second->biases[i], 1e-12), "export", "%s bias %d exported as %g, is %g", p.first.c_str(), i, e->valuedouble, p.second->biases[i]);
    }
}
static void activations(Src &s, Case &c)
{
    c.desc << "activation functions";
    for (int k = 0; k < 20; ++k) {
        const int f = (int) s.below(NUM_ACTIVATIONS);
        const double x = s.chance(1, 6) ? s.pick(std::vector<double>{0, -0.0, 1, -1, 100, -100, 1e-12, -1e-12}) : s.chance(1, 3) ? s.uniform(-100, 100) : s.uniform(-4, 4);
        const double got = neural_activate(f, x), want = ref_act(f, x);
        CHECK(close(got, want, 1e-9, 1e-12), "activation", "%s(%g) = %.12g, expected %.12g", neural_activation_string(f), x, got, want);
        CHECK(neural_activation_as_int(neural_activation_string(f)) == f, "activation-name", "function %d does not survive its name", f);
        // derivative
        const long double h = 1e-4L;
        const double lo = ref_act(f, (double) (x - h)), hi = ref_act(f, (double) (x + h)), d = (double) ((hi - lo) / ((double) (x + h) - (double) (x - h)));
        const double d1 = (ref_act(f, (double) (x + h)) - want) / ((double) (x + h) - x), d2 = (want - lo) / (x - (double) (x - h));
        const double g = neural_gradient(f, x);
        if (fabs(d1 - d2) < 1e-3) CHECK(fabs(g - d) < 1e-5 * (1 + fabs(d)), "gradient", "derivative of %s at %g is %.9g, expected %.9g", neural_activation_string(f), x, g, d);
        // over arrays, states are limited
        const int n = s.range(1, 5);
        std::vector<double> st((size_t) n), out((size_t) n), s0;
        for (double &e : st) e = s.chance(1, 3) ? s.uniform(-300, 300) : s.uniform(-3, 3);
        s0 = st;
        neural_activate_array(st.data(), out.data(), n, f);
        for (int i = 0; i < n; ++i) {
            const double w = ref_act(f, std::max((double) NEURON_MIN, std::min((double) NEURON_MAX, s0[(size_t) i])));
            CHECK(close(out[(size_t) i], w, 1e-9, 1e-12), "activation-array", "%s of array element %g is %g, expected %g", neural_activation_string(f), s0[(size_t) i], out[(size_t) i], w);
        }
        std::vector<double> dl((size_t) n), d0;
        for (double &e : dl) e = s.uniform(-2, 2);
        d0 = dl;
        neural_gradient_array(st.data(), dl.data(), n, f);
        for (int i = 0; i < n; ++i)
            CHECK(close(dl[(size_t) i], d0[(size_t) i] * neural_gradient(f, st[(size_t) i]), 1e-9, 1e-12), "gradient-array", "error signal through %s", neural_activation_string(f));
    }
    c.count("activation cases");
    c.nontrivial = true;
}
static void stochastic(Src &s, Case &c)
{
    // one dropout or noise layer in training
    ArgsLayer a;
    layer_args_init(&a);
    a.type = s.flip() ? DROPOUT : NOISE;
    const int n = s.range(1, 40);
    a.n_inputs = a.n_init = a.width = n;
    a.height = a.channels = 1;
    a.probability = s.real(0, 0.9);
    a.scale = s.real(0, 1);
    seed_rng((uint32_t) s.below(1u << 31));
    NetBox b({a});
    c.desc << (a.type == DROPOUT ? "dropout" : "noise") << " n" << n << " p=" << a.probability << " scale=" << a.scale;
    if (s.chance(1, 3)) { // as copied, or saved and loaded
        Net m;
        if (s.flip()) {
            neural_copy(&m, &b.n);
        } else {
            const std::string f = scratch() + "/net";
            FILE *fp = fopen(f.c_str(), "wb");
            neural_save(&b.n, fp);
            fclose(fp);
            fp = fopen(f.c_str(), "rb");
            neural_load(&m, fp);
            fclose(fp);
        }
        neural_free(&b.n);
        b.n = m;
    }
    std::vector<double> x((size_t) n);
    for (double &e : x) e = s.uniform(0.5, 2);
    long hit = 0, tot = 0;
    double sum = 0, sq = 0;
    const int reps = 2000 / n + 1;
    for (int k = 0; k < reps; ++k) {
        neural_propagate(&b.n, x.data(), true);
        for (int i = 0; i < n; ++i) {
            const double o = neural_output(&b.n, i), e = x[(size_t) i];
            ++tot;
            if (a.type == DROPOUT) {
                const bool zero = o == 0;
                if (!zero) CHECK(close(o, e / (1 - a.probability)), "dropout", "dropout with probability %g turned %g into %g", a.probability, e, o);
                hit += zero;
            } else if (o != e) {
                ++hit;
                sum += o - e, sq += (o - e) * (o - e);
            }
        }
    }
    if (a.type == DROPOUT || a.scale > 0) {
        const double p = a.probability, sd = sqrt(p * (1 - p) / (double) tot);
        CHECK(fabs((double) hit / (double) tot - p) <= 7 * sd + 1e-12, "rate", "%ld of %ld values affected with probability %g", hit, tot, p);
    }
    if (a.type == NOISE && hit > 300) {
        const double m = sum / (double) hit, v = sq / (double) hit, sd = a.scale;
        CHECK(fabs(m) <= 7 * sd / sqrt((double) hit), "noise-mean", "noise of mean %g", m);
        CHECK(fabs(v - sd * sd) <= 10 * sd * sd * sqrt(2.0 / (double) hit), "noise-sd", "noise of variance %g, configured %g", v, sd * sd);
    }
    if (a.type == NOISE && a.scale == 0) CHECK(hit == 0, "noise-zero", "noise of scale zero changes values");
    neural_propagate(&b.n, x.data(), false);
    for (int i = 0; i < n; ++i) CHECK(neural_output(&b.n, i) == x[(size_t) i], "identity", "not the identity outside training");
    c.count(a.type == DROPOUT ? "dropout training" : "noise training");
    c.nontrivial = hit > 0;
}
static void run(Src &s, Case &c)
{
    const int mode = s.pickw({30, 1, 1});
    if (mode == 1) return activations(s, c);
    if (mode == 2) return stochastic(s, c);
    NetOpt o;
    o.images = s.flip();
    o.evolve = s.chance(1, 4);
    o.softmax_out = o.temp = true;
    o.max_hidden = 3;
    o.max_neurons = 6;
    o.big = s.chance(1, 12);
    const int n_in = o.big ? (o.images ? s.pick(std::vector<int>{36, 48, 64, 75}) : s.range(6, 24)) : o.images ? s.pick(std::vector<int>{4, 6, 9, 12, 16, 18, 25, 27}) : s.range(1, 6);
    const std::vector<ArgsLayer> v = gen_net(s, n_in, s.range(1, o.big ? 12 : 4), o);
    c.desc << "in " << n_in << " " << net_str(v);
    seed_rng((uint32_t) s.below(1u << 31));
    NetBox b(v);
    const int ws = s.range(0, 3);
    if (ws) fill_weights(&b.n, s.below(1u << 30), ws == 1 ? 0.5 : ws == 2 ? 1.5 : 10, s.chance(1, 3) ? 0.3 : 0);
    // (layer sizes)
    const std::vector<const Layer *> ls = net_layers(&b.n);
    CHECK(ls.size() == v.size() && b.n.n_layers == (int) v.size(), "layers", "%zu layers for %zu layer descriptions", ls.size(), v.size());
    RefMem chain;
    const bool calm = ws <= 1;
    for (const Layer *l : ls) { // memory starts empty
        if (l->type == RECURRENT || l->type == LSTM) chain.out[l] = chain.cell[l] = std::vector<double>((size_t) l->n_outputs, 0.0);
    }
    std::set<double> seen;
    const int reps = s.range(1, 5);
    for (int t = 0; t < reps; ++t) {
        std::vector<double> x((size_t) n_in);
        for (double &e : x) e = s.chance(1, 10) ? 0 : s.uniform(-2, 2);
        const std::vector<double> x0 = x;
        RefMem before;
        for (const Layer *l : ls) {
            if (l->type == RECURRENT) before.out[l] = std::vector<double>(l->output_layer->output, l->output_layer->output + l->n_outputs);
            if (l->type == LSTM) {
                before.out[l] = std::vector<double>(l->h, l->h + l->n_outputs);
                before.cell[l] = std::vector<double>(l->c, l->c + l->n_outputs);
            }
        }
        const Snap w0 = snap_net(&b.n, S_MU);
        neural_propagate(&b.n, x.data(), false);
        CHECK(x == x0, "input", "propagation changed its input");
        const std::string d = diff(w0, snap_net(&b.n, S_MU));
        CHECK(d.empty(), "parameters", "propagation changed parameters: %s", d.c_str());
        std::vector<double> in = x;
        for (const Layer *l : ls) {
            const std::vector<double> want = ref_layer(l, in, &before);
            CHECK((int) want.size() == l->n_outputs, "outputs", "layer type %d has %d outputs, expected %zu", l->type, l->n_outputs, want.size());
            const double *got = layer_output(l);
            double sum = 0;
            for (int i = 0; i < l->n_outputs; ++i) {
                CHECK(std::isfinite(got[i]), "finite", "layer type %d output %d is %g", l->type, i, got[i]);
                CHECK(close(got[i], want[(size_t) i], 1e-8, 1e-9), "value", "layer type %d output %d is %.12g, expected %.12g", l->type, i, got[i], want[(size_t) i]);
                if (l->type == SOFTMAX) CHECK(got[i] >= 0 && got[i] <= 1, "softmax", "softmax output %g", got[i]);
                sum += got[i];
            }
            if (l->type == SOFTMAX) CHECK(fabs(sum - 1) < 1e-9, "softmax", "softmax outputs add to %g", sum);
            in.assign(got, got + l->n_outputs);
        }
        CHECK((int) in.size() == b.n.n_outputs, "n-outputs", "network declares %d outputs, has %zu", b.n.n_outputs, in.size());
        for (size_t i = 0; i < in.size(); ++i) {
            CHECK(neural_output(&b.n, (int) i) == in[i] && neural_outputs(&b.n)[i] == in[i], "access", "output %zu differs by access", i);
            seen.insert(in[i]);
        }
        if (calm) {
            const std::vector<std::vector<double>> r = ref_net(&b.n, x.data(), &chain);
            for (size_t i = 0; i < in.size(); ++i)
                CHECK(close(in[i], r.back()[i], 1e-6, 1e-7), "history", "after %d inputs output %zu is %.12g, expected %.12g", t + 1, i, in[i], r.back()[i]);
        }
    }
    {
        char *js = neural_json_export(&b.n, true);
        cJSON *j = cJSON_Parse(js);
        free(js);
        CHECK(cJSON_GetArraySize(j) == (int) ls.size(), "export", "%d layers exported of %zu", cJSON_GetArraySize(j), ls.size());
        for (size_t i = 0; i < ls.size(); ++i) check_exported(ls[i], cJSON_GetObjectItem(j, fmt("layer_%zu", i).c_str()));
        cJSON_Delete(j);
    }
    for (const Layer *l : ls) c.count(layer_type_as_string(l->type));
    c.nontrivial = seen.size() > 1;
}
const Property pbt::property = {
    "C19",
    "a case is a random network (any layer types, image shapes, kernels, strides, padding, activations; initial or random weights up to the limit, some pruned) fed up to five inputs, every layer compared with a reference; or a batch of activation-function values and derivatives; or a dropout or noise layer in training; non-trivial: outputs differ between inputs or units, or values were affected",
    run, 60000, 2500000, 20};
