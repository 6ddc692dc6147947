#include "ref.hpp"
#include <limits>

double ref_act(int f, double v)
{
    const long double x = v;
    switch (f) {
        case LOGISTIC: return (double) (1.0L / (1.0L + expl(-x)));
        case RELU: return v > 0 ? v : 0;
        case TANH: return (double) tanhl(x);
        case LINEAR: return v;
        case GAUSSIAN: return (double) expl(-x * x);
        case SIN: return (double) sinl(x);
        case COS: return (double) cosl(x);
        case SOFT_PLUS: return (double) (x > 0 ? x + log1pl(expl(-x)) : log1pl(expl(x)));
        case LEAKY: return v > 0 ? v : (double) (0.1L * x);
        case SELU: return (double) (1.0507L * (x >= 0 ? x : 1.6732L * expm1l(x)));
        case LOGGY: return (double) (2.0L / (1.0L + expl(-x)) - 1.0L);
    }
    pbt::fail("reference", fmt("activation function %d", f));
}
static double lim(double v, double lo, double hi) { return v < lo ? lo : v > hi ? hi : v; }

// weighted sums of a fully connected layer
static std::vector<double> dense(const Layer *l, const std::vector<double> &in)
{
    std::vector<double> o((size_t) l->n_outputs);
    for (int j = 0; j < l->n_outputs; ++j) {
        long double a = l->biases[j];
        for (int i = 0; i < l->n_inputs; ++i)
            a += (long double) l->weights[(size_t) j * (size_t) l->n_inputs + (size_t) i] * in[(size_t) i];
        o[(size_t) j] = ref_act(l->function, lim((double) a, NEURON_MIN, NEURON_MAX));
    }
    return o;
}
static std::vector<double> vec(const double *p, int n)
{
    return p ? std::vector<double>(p, p + n) : std::vector<double>((size_t) n, 0.0);
}
std::vector<double> ref_layer(const Layer *l, const std::vector<double> &in, RefMem *mem)
{
    CHECK((int) in.size() == l->n_inputs, "layer-sizes", "layer type %d takes %d inputs but is fed %zu", l->type,
          l->n_inputs, in.size());
    switch (l->type) {
        case CONNECTED: return dense(l, in);
        case DROPOUT:
        case NOISE: return in;
        case SOFTMAX: {
            long double mx = -INFINITY, sum = 0;
            for (double v : in) mx = std::max(mx, (long double) v / l->scale);
            std::vector<double> o(in.size());
            for (double v : in) sum += expl((long double) v / l->scale - mx);
            for (size_t i = 0; i < in.size(); ++i) o[i] = (double) (expl((long double) in[i] / l->scale - mx) / sum);
            return o;
        }
        case RECURRENT: {
            const int n = l->n_outputs;
            std::vector<double> prev;
            if (mem && mem->out.count(l)) prev = mem->out[l];
            else prev = vec(l->output_layer->output, n);
            std::vector<double> a = dense(l->input_layer, in), b = dense(l->self_layer, prev);
            for (int i = 0; i < n; ++i) a[(size_t) i] += b[(size_t) i];
            std::vector<double> o = dense(l->output_layer, a);
            if (mem) mem->out[l] = o;
            return o;
        }
        case LSTM: {
            const int n = l->n_outputs;
            std::vector<double> h, c;
            if (mem && mem->out.count(l)) h = mem->out[l], c = mem->cell[l];
            else h = vec(l->h, n), c = vec(l->c, n);
            auto gate = [&](const Layer *u, const Layer *w, int f) {
                std::vector<double> a = dense(u, in), b = dense(w, h);
                for (int i = 0; i < n; ++i)
                    a[(size_t) i] = ref_act(f, lim(a[(size_t) i] + b[(size_t) i], NEURON_MIN, NEURON_MAX));
                return a;
            };
            std::vector<double> f = gate(l->uf, l->wf, l->recurrent_function), i = gate(l->ui, l->wi, l->recurrent_function),
                                g = gate(l->ug, l->wg, l->function), o = gate(l->uo, l->wo, l->recurrent_function), r;
            for (size_t k = 0; k < (size_t) n; ++k) {
                c[k] = c[k] * f[k] + i[k] * g[k];
                r.push_back(o[k] * ref_act(l->function, lim(c[k], NEURON_MIN, NEURON_MAX)));
            }
            if (mem) mem->out[l] = r, mem->cell[l] = c;
            return r;
        }
        case CONVOLUTIONAL: {
            const int oh = (l->height + 2 * l->pad - l->size) / l->stride + 1;
            const int ow = (l->width + 2 * l->pad - l->size) / l->stride + 1;
            std::vector<double> o;
            for (int f = 0; f < l->n_filters; ++f)
                for (int y = 0; y < oh; ++y)
                    for (int x = 0; x < ow; ++x) {
                        long double a = l->biases[f];
                        for (int c = 0; c < l->channels; ++c)
                            for (int ky = 0; ky < l->size; ++ky)
                                for (int kx = 0; kx < l->size; ++kx) {
                                    const int iy = y * l->stride - l->pad + ky, ix = x * l->stride - l->pad + kx;
                                    if (iy < 0 || ix < 0 || iy >= l->height || ix >= l->width) continue;
                                    a += (long double) l->weights[((f * l->channels + c) * l->size + ky) * l->size + kx] *
                                        in[(size_t) ((c * l->height + iy) * l->width + ix)];
                                }
                        o.push_back(ref_act(l->function, lim((double) a, NEURON_MIN, NEURON_MAX)));
                    }
            return o;
        }
        case MAXPOOL: {
            const int oh = (l->height + l->pad - l->size) / l->stride + 1;
            const int ow = (l->width + l->pad - l->size) / l->stride + 1;
            std::vector<double> o;
            for (int c = 0; c < l->channels; ++c)
                for (int y = 0; y < oh; ++y)
                    for (int x = 0; x < ow; ++x) {
                        double m = -INFINITY;
                        for (int ky = 0; ky < l->size; ++ky)
                            for (int kx = 0; kx < l->size; ++kx) {
                                const int iy = y * l->stride - l->pad / 2 + ky, ix = x * l->stride - l->pad / 2 + kx;
                                if (iy < 0 || ix < 0 || iy >= l->height || ix >= l->width) continue;
                                m = std::max(m, in[(size_t) ((c * l->height + iy) * l->width + ix)]);
                            }
                        o.push_back(m);
                    }
            return o;
        }
        case AVGPOOL: {
            std::vector<double> o;
            const int n = l->height * l->width;
            for (int c = 0; c < l->channels; ++c) {
                long double a = 0;
                for (int i = 0; i < n; ++i) a += in[(size_t) (c * n + i)];
                o.push_back((double) (a / n));
            }
            return o;
        }
        case UPSAMPLE: {
            std::vector<double> o;
            for (int c = 0; c < l->channels; ++c)
                for (int y = 0; y < l->height * l->stride; ++y)
                    for (int x = 0; x < l->width * l->stride; ++x)
                        o.push_back(in[(size_t) ((c * l->height + y / l->stride) * l->width + x / l->stride)]);
            return o;
        }
    }
    pbt::fail("reference", fmt("layer type %d", l->type));
}
std::vector<std::vector<double>> ref_net(const Net *n, const double *x, RefMem *mem)
{
    std::vector<std::vector<double>> r;
    std::vector<double> in(x, x + n->n_inputs);
    for (const Layer *l : net_layers(n)) {
        in = ref_layer(l, in, mem);
        r.push_back(in);
    }
    return r;
}
static bool tree_rec(const int *t, int len, int &p, const ArgsGPTree *a, const double *x, double *out)
{
    if (p >= len) return false;
    const int n = t[p++];
    if (n < 0) return false;
    if (n >= 4) {
        const int k = n - 4;
        if (k < a->n_constants) *out = a->constants[k];
        else if (k < a->n_constants + a->n_inputs) *out = x[k - a->n_constants];
        else return false;
        return true;
    }
    double u, v;
    if (!tree_rec(t, len, p, a, x, &u) || !tree_rec(t, len, p, a, x, &v)) return false;
    u = lim(u, -1000, 1000);
    v = lim(v, -1000, 1000);
    switch (n) {
        case 0: *out = u + v; break;
        case 1: *out = u - v; break;
        case 2: *out = u * v; break;
        default: *out = v != 0 ? u / v : u;
    }
    return true;
}
bool ref_tree(const int *tree, int len, const ArgsGPTree *a, const double *x, double *out)
{
    int p = 0;
    return tree_rec(tree, len, p, a, x, out) && p == len;
}
std::vector<double> ref_graph(const Graph *g, const double *x, bool reset)
{
    std::vector<double> st = vec(reset ? g->initial_state : g->state, g->n);
    for (int t = 0; t < g->t; ++t) {
        std::vector<double> nx(st.size());
        for (int i = 0; i < g->n; ++i) {
            std::vector<double> in;
            for (int k = 0; k < g->max_k; ++k) {
                const int c = g->connectivity[i * g->max_k + k];
                CHECK(c >= 0 && c < g->n_inputs + g->n, "graph-connection", "connection to %d of %d", c, g->n_inputs + g->n);
                in.push_back(c < g->n_inputs ? x[c] : st[(size_t) (c - g->n_inputs)]);
            }
            double v = in[0];
            switch (g->function[i]) {
                case 0: v = 1 - v; break;
                case 1:
                    for (size_t k = 1; k < in.size(); ++k) v *= in[k];
                    break;
                case 2:
                    for (size_t k = 1; k < in.size(); ++k) v += in[k];
                    break;
                default: pbt::fail("graph-function", fmt("node function %d", g->function[i]));
            }
            nx[(size_t) i] = lim(v, 0, 1);
        }
        st = nx;
    }
    return st;
}
bool ref_match(const XCSF *x, const Cl *c, const double *in, double *margin)
{
    *margin = INFINITY;
    const int d = x->x_dim;
    switch (x->cond->type) {
        case COND_TYPE_DUMMY: return true;
        case COND_TYPE_HYPERRECTANGLE_CSR:
        case COND_TYPE_HYPERRECTANGLE_UBR: {
            const CondRectangle *r = (const CondRectangle *) c->cond;
            bool ok = true;
            for (int i = 0; i < d; ++i) {
                double lo, hi;
                if (x->cond->type == COND_TYPE_HYPERRECTANGLE_CSR) {
                    lo = r->b1[i] - r->b2[i], hi = r->b1[i] + r->b2[i];
                    // centre and spread: the bounds are subject to rounding
                    for (double b : {lo, hi}) {
                        const double e = fabs(in[i] - b), s = fabs(r->b1[i]) + fabs(r->b2[i]) + fabs(in[i]);
                        if (e != 0 && e < 1e-15 * s) *margin = 0;
                        if (e == 0 && (long double) b != (long double) r->b1[i] + (b == lo ? -1 : 1) * (long double) r->b2[i]) *margin = 0;
                    }
                } else {
                    lo = std::min(r->b1[i], r->b2[i]), hi = std::max(r->b1[i], r->b2[i]);
                }
                if (!(lo <= in[i] && in[i] <= hi)) ok = false;
            }
            return ok;
        }
        case COND_TYPE_HYPERELLIPSOID: {
            const CondEllipsoid *r = (const CondEllipsoid *) c->cond;
            long double s = 0;
            int axes = 0;
            for (int i = 0; i < d; ++i) {
                const long double q = ((long double) in[i] - r->center[i]) / r->spread[i];
                axes += q != 0;
                s += q * q;
            }
            // one exactly decided step away from the boundary by rounding
            if (s != 1) *margin = (double) fabsl(s - 1);
            else if (axes > 1) *margin = 0;
            if (s != 1 && fabsl(s - 1) < 1e-13L * d) *margin = 0;
            return s < 1;
        }
        case COND_TYPE_TERNARY: {
            const CondTernary *r = (const CondTernary *) c->cond;
            const int bits = x->cond->bits;
            for (int i = 0; i < d; ++i) {
                const long levels = 1L << bits;
                long v = in[i] >= 1 ? levels - 1 : in[i] <= 0 ? 0 : (long) floor(in[i] * (double) levels);
                for (int j = 0; j < bits; ++j) {
                    const char bit = ((v >> (bits - 1 - j)) & 1) ? '1' : '0';
                    const char s = r->string[i * bits + j];
                    if (s != '#' && s != bit) return false;
                }
            }
            return true;
        }
        case COND_TYPE_GP: {
            const GPTree *g = &((const CondGP *) c->cond)->gp;
            double v;
            CHECK(ref_tree(g->tree, g->len, x->cond->targs, in, &v), "tree-shape", "tree of length %d is not a complete program", g->len);
            *margin = INFINITY;
            return v > 0.5;
        }
        case COND_TYPE_DGP:
        case RULE_TYPE_DGP: {
            const Graph *g = x->cond->type == COND_TYPE_DGP ? &((const CondDGP *) c->cond)->dgp : &((const RuleDGP *) c->cond)->dgp;
            const double v = ref_graph(g, in, !x->STATEFUL)[0];
            if (v != 0.5) *margin = fabs(v - 0.5);
            return v > 0.5;
        }
        default: {
            const Net *n = cond_net(x, c);
            const double v = ref_net(n, in).back()[0];
            *margin = fabs(v - 0.5);
            return v > 0.5;
        }
    }
}
int ref_action(const XCSF *x, const Cl *c, const double *in, double *margin)
{
    *margin = INFINITY;
    if (x->cond->type == RULE_TYPE_DGP || x->cond->type == RULE_TYPE_NEURAL) {
        std::vector<double> o;
        int bits;
        if (x->cond->type == RULE_TYPE_DGP) {
            o = ref_graph(&((const RuleDGP *) c->cond)->dgp, in, !x->STATEFUL);
            bits = ((const RuleDGP *) c->cond)->n_outputs;
        } else {
            o = ref_net(cond_net(x, c), in).back();
            bits = (int) o.size() - 1;
        }
        int a = 0;
        for (int i = 0; i < bits; ++i) {
            const double v = o[(size_t) i + 1];
            if (v > 0.5) a += 1 << i;
            if (v != 0.5) *margin = std::min(*margin, fabs(v - 0.5));
        }
        return std::min(a, x->n_actions - 1);
    }
    if (const Net *n = act_net(x, c)) {
        std::vector<double> o = ref_net(n, in).back();
        int b = 0;
        for (int i = 1; i < x->n_actions; ++i)
            if (o[(size_t) i] > o[(size_t) b]) b = i;
        for (int i = 0; i < x->n_actions; ++i)
            if (i != b) *margin = std::min(*margin, o[(size_t) b] - o[(size_t) i]);
        return b;
    }
    return ((const ActInteger *) c->act)->action;
}
double ref_loss(const XCSF *x, const double *p, const double *y)
{
    long double s = 0;
    const int n = x->y_dim;
    switch (x->LOSS_FUNC) {
        case LOSS_MAE:
            for (int i = 0; i < n; ++i) s += fabsl((long double) y[i] - p[i]);
            return (double) (s / n);
        case LOSS_MSE:
        case LOSS_RMSE:
            for (int i = 0; i < n; ++i) s += ((long double) y[i] - p[i]) * ((long double) y[i] - p[i]);
            s /= n;
            return (double) (x->LOSS_FUNC == LOSS_MSE ? s : sqrtl(s));
        case LOSS_HUBER:
            for (int i = 0; i < n; ++i) {
                const long double a = fabsl((long double) y[i] - p[i]), q = x->HUBER_DELTA;
                s += a > q ? 0.5L * q * q + q * (a - q) : 0.5L * a * a;
            }
            return (double) (s / n);
        case LOSS_LOG:
            for (int i = 0; i < n; ++i) s += y[i] * logl(fmaxl(p[i], DBL_EPSILON));
            return (double) -s;
        case LOSS_BINARY_LOG:
            for (int i = 0; i < n; ++i)
                s += y[i] * logl(fmaxl(p[i], DBL_EPSILON)) + (1 - (long double) y[i]) * logl(fmaxl(1 - (long double) p[i], DBL_EPSILON));
            return (double) -s;
        case LOSS_ONEHOT: {
            int a = 0;
            for (int i = 1; i < n; ++i)
                if (p[i] > p[a]) a = i;
            return y[a] == 1 ? 0 : 1;
        }
    }
    pbt::fail("reference", fmt("loss %d", x->LOSS_FUNC));
}
bool ref_cond_general(const XCSF *x, const Cl *a, const Cl *b, bool *amb)
{
    const int d = x->x_dim;
    switch (x->cond->type) {
        case COND_TYPE_HYPERRECTANGLE_CSR:
        case COND_TYPE_HYPERRECTANGLE_UBR: {
            const CondRectangle *p = (const CondRectangle *) a->cond, *q = (const CondRectangle *) b->cond;
            const bool csr = x->cond->type == COND_TYPE_HYPERRECTANGLE_CSR;
            bool ok = true;
            for (int i = 0; i < d; ++i) {
                const double l1 = csr ? p->b1[i] - p->b2[i] : std::min(p->b1[i], p->b2[i]);
                const double u1 = csr ? p->b1[i] + p->b2[i] : std::max(p->b1[i], p->b2[i]);
                const double l2 = csr ? q->b1[i] - q->b2[i] : std::min(q->b1[i], q->b2[i]);
                const double u2 = csr ? q->b1[i] + q->b2[i] : std::max(q->b1[i], q->b2[i]);
                if (csr && ((l1 != l2 && fabs(l1 - l2) < 1e-12) || (u1 != u2 && fabs(u1 - u2) < 1e-12))) *amb = true;
                ok = ok && l1 <= l2 && u2 <= u1;
            }
            return ok;
        }
        case COND_TYPE_TERNARY: {
            const CondTernary *p = (const CondTernary *) a->cond, *q = (const CondTernary *) b->cond;
            bool more = false;
            for (int i = 0; i < p->length; ++i) {
                if (p->string[i] == q->string[i]) continue;
                if (p->string[i] != '#') return false;
                more = true;
            }
            return more;
        }
        case COND_TYPE_HYPERELLIPSOID: {
            const CondEllipsoid *p = (const CondEllipsoid *) a->cond, *q = (const CondEllipsoid *) b->cond;
            bool ok = true, conc = true;
            for (int i = 0; i < d; ++i) conc = conc && p->center[i] == q->center[i];
            for (int i = 0; i < d; ++i) {
                if (conc && p->spread[i] == q->spread[i]) continue;
                for (int sg = -1; sg <= 1; sg += 2) {
                    long double r = 0;
                    for (int j = 0; j < d; ++j) {
                        const long double v = (long double) q->center[j] + (i == j ? sg * (long double) q->spread[j] : 0);
                        const long double e = (v - p->center[j]) / p->spread[j];
                        r += e * e;
                    }
                    if (fabsl(r - 1) < 1e-12L * (1 + r)) *amb = true;
                    if (r > 1) ok = false;
                }
            }
            return ok;
        }
        default: return false;
    }
}
bool ref_general(const XCSF *x, const Cl *a, const Cl *b, bool *amb)
{
    if (!ref_cond_general(x, a, b, amb)) return false;
    if (x->act->type == ACT_TYPE_NEURAL) return false;
    return ((const ActInteger *) a->act)->action == ((const ActInteger *) b->act)->action;
}
