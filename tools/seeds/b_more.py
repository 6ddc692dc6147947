S.append(dict(id='C02-cover-recheck', prop='C02',
    needs='several actions, a population limit so small that covering deletes one of the rules just created for another action while others stay in the match set',
    breaks='covering stops although an action has lost its only rule: an action is left without a prediction',
    edits=[('xcsf/clset.c', '                covered = clset_action_coverage(xcsf, act_covered);\n', '                covered = clset_action_coverage(xcsf, act_covered) ||\n                    xcsf->mset.size > 1;\n')],
    c=r'''
int main(void)
{
    struct XCSF x;
    param_init(&x, 2, 1, 3);
    param_set_random_state(&x, 1);
    json(&x, "{\"condition\":{\"type\":\"hyperrectangle_csr\",\"args\":{\"eta\":0,\"min\":0,\"max\":1,\"spread_min\":0.1}},\"prediction\":{\"type\":\"constant\"},\"action\":{\"type\":\"integer\"},\"pop_size\":5,\"pop_init\":false}");
    xcsf_init(&x);
    for (int k = 0; k < 20000; ++k) {
        double in[] = {rand_uniform(0, 1), rand_uniform(0, 1)};
        bool has[3] = {false, false, false};
        clset_init(&x.mset);
        clset_init(&x.kset);
        clset_match(&x, in, true);
        for (struct Clist *i = x.mset.list; i; i = i->next) has[i->cl->action] = true;
        if (!has[0] || !has[1] || !has[2]) BAD("input %d: an action has no rule", k);
        clset_free(&x.mset);
        clset_kill(&x, &x.kset);
    }
    return 0;
}
'''))
S.append(dict(id='C11-second-output', prop='C11',
    needs='a linear prediction with more than one output, exported and inserted again',
    breaks='only the weights of the first output are restored when a rule is inserted from its JSON',
    edits=[('xcsf/pred_nlms.c', '            for (int i = 0; i < pred->n_weights; ++i) {\n                const cJSON', '            for (int i = 0; i < pred->n; ++i) {\n                const cJSON')],
    c=r'''
int main(void)
{
    struct XCSF x;
    param_init(&x, 2, 2, 1);
    json(&x, "{\"condition\":{\"type\":\"dummy\"},\"prediction\":{\"type\":\"nlms_linear\"},\"pop_size\":10,\"pop_init\":false}");
    xcsf_init(&x);
    clset_json_insert_cl(&x, cJSON_Parse("{\"condition\":{\"type\":\"dummy\"},\"prediction\":{\"type\":\"nlms_linear\",\"weights\":[1,2,3,4,5,6]}}"));
    const struct PredNLMS *p = x.pset.list->cl->pred;
    for (int i = 0; i < 6; ++i)
        if (p->weights[i] != i + 1) BAD("weight %d is %g", i, p->weights[i]);
    return 0;
}
'''))
S.append(dict(id='C12-age', prop='C12',
    needs='storing a population that has been matched, retrieving it and comparing the ages of its rules',
    breaks='a retrieved rule looks as if it had never been presented an input, so unmatched rules survive deletion and match fractions exceed one',
    edits=[('xcsf/cl.c', '    dest->age = src->age;', '    dest->age = src->m ? src->age : 0;')],
    c=r'''
int main(void)
{
    struct XCSF x;
    param_init(&x, 1, 1, 1);
    json(&x, "{\"condition\":{\"type\":\"dummy\"},\"prediction\":{\"type\":\"constant\"},\"pop_size\":10,\"pop_init\":false}");
    xcsf_init(&x);
    struct Cl *c = new_rule(&x);
    c->age = 17, c->m = false;
    xcsf_store_pset(&x);
    xcsf_retrieve_pset(&x);
    if (x.pset.list->cl->age != 17) BAD("age %d", x.pset.list->cl->age);
    return 0;
}
'''))
S.append(dict(id='C13-rate-counter', prop='C13',
    needs='two runs with the same seed in one process, with a representation whose mutation rates are picked from the table of rates',
    breaks='the second run starts with other mutation rates than the first although seed, data and settings are the same',
    edits=[('xcsf/sam.c', '''            case SAM_RATE_SELECT:
                mu[i] = mrates[rand_uniform_int(0, N_RATES)];
                break;
            default:
                printf("sam_init()''', '''            case SAM_RATE_SELECT: {
                static int next = 0;
                mu[i] = mrates[(next + rand_uniform_int(0, N_RATES)) % N_RATES];
                next = (next + 1) % N_RATES;
                break;
            }
            default:
                printf("sam_init()''')],
    c=r'''
int main(void)
{
    double mu[2][3];
    const int type[] = {SAM_RATE_SELECT, SAM_RATE_SELECT, SAM_RATE_SELECT};
    for (int r = 0; r < 2; ++r) {
        rand_init_seed(5);
        sam_init(mu[r], 3, type);
    }
    if (memcmp(mu[0], mu[1], sizeof(mu[0]))) BAD("the same seed gives other rates");
    return 0;
}
'''))
S.append(dict(id='C14-ubr-order', prop='C14',
    needs='an unordered-bound hyperrectangle whose first bound lies above its second in a dimension other than the first',
    breaks='such a condition rejects inputs that lie between its bounds',
    edits=[('xcsf/cond_rectangle.c', '''            const double lb = fmin(cond->b1[i], cond->b2[i]);
            const double ub = fmax(cond->b1[i], cond->b2[i]);
            if (x[i] < lb || x[i] > ub) {''', '''            const bool sorted = (cond->b1[0] <= cond->b2[0]);
            const double lb = sorted ? cond->b1[i] : fmin(cond->b1[i], cond->b2[i]);
            const double ub = sorted ? cond->b2[i] : fmax(cond->b1[i], cond->b2[i]);
            if (x[i] < lb || x[i] > ub) {''')],
    c=r'''
int main(void)
{
    struct XCSF x;
    param_init(&x, 2, 1, 1);
    json(&x, "{\"condition\":{\"type\":\"hyperrectangle_ubr\",\"args\":{\"min\":0,\"max\":1}},\"prediction\":{\"type\":\"constant\"},\"pop_init\":false}");
    xcsf_init(&x);
    struct Cl *c = new_rule(&x);
    struct CondRectangle *r = c->cond;
    r->b1[0] = 0.1, r->b2[0] = 0.9, r->b1[1] = 0.9, r->b2[1] = 0.1;
    const double in[] = {0.5, 0.5};
    if (!cond_match(&x, c, in)) BAD("an input between the bounds is rejected");
    return 0;
}
'''))
S.append(dict(id='C15-equal-general', prop='C15',
    needs='two ternary rules that specify the same symbols',
    breaks='a ternary rule counts as more general than an identical one, so rules absorb their equals',
    edits=[('xcsf/cond_ternary.c', '    bool general = false;\n', '    bool general = (cond1->length == cond2->length);\n')],
    c=r'''
int main(void)
{
    struct XCSF x;
    param_init(&x, 3, 1, 1);
    json(&x, "{\"condition\":{\"type\":\"ternary\",\"args\":{\"bits\":2}},\"prediction\":{\"type\":\"constant\"},\"pop_init\":false}");
    xcsf_init(&x);
    struct Cl *c = new_rule(&x);
    if (cl_general(&x, c, c)) BAD("a ternary rule is more general than itself");
    return 0;
}
'''))
S.append(dict(id='C16-negative-spread', prop='C16',
    needs='mutation of a centre-spread rectangle with a small spread and a large mutation rate',
    breaks='mutation can leave a spread of zero or below: the rule can never match again',
    edits=[('xcsf/cond_rectangle.c', '            b2[i] = fmax(DBL_EPSILON, b2[i]);', '            b2[i] = fmax(xcsf->cond->spread_min < b2[i] ? DBL_EPSILON : -xcsf->cond->spread_min, b2[i]);')],
    c=r'''
int main(void)
{
    struct XCSF x;
    param_init(&x, 2, 1, 1);
    json(&x, "{\"condition\":{\"type\":\"hyperrectangle_csr\",\"args\":{\"min\":0,\"max\":1,\"spread_min\":0.1}},\"prediction\":{\"type\":\"constant\"},\"pop_init\":false}");
    xcsf_init(&x);
    struct Cl *c = new_rule(&x);
    struct CondRectangle *r = c->cond;
    for (int k = 0; k < 5000; ++k) {
        cl_mutate(&x, c);
        if (r->b2[0] <= 0 || r->b2[1] <= 0) BAD("spread %g %g", r->b2[0], r->b2[1]);
    }
    return 0;
}
'''))
S.append(dict(id='C18-forgetting', prop='C18',
    needs='recursive least squares with a forgetting rate other than one and at least two inputs',
    breaks='the gain matrix forgets only on its diagonal, so the weights are no longer the least squares solution',
    edits=[('xcsf/pred_rls.c', '            pred->matrix[i * n + j] = pred->tmp_matrix2[i * n + j] / lambda;', '            pred->matrix[i * n + j] =\n                pred->tmp_matrix2[i * n + j] / ((i == j) ? lambda : 1);')],
    c=r'''
int main(void)
{
    struct XCSF x;
    param_init(&x, 1, 1, 1);
    json(&x, "{\"condition\":{\"type\":\"dummy\"},\"prediction\":{\"type\":\"rls_linear\",\"args\":{\"x0\":1,\"scale_factor\":10,\"lambda\":0.5}},\"pop_init\":false}");
    xcsf_init(&x);
    struct Cl *c = new_rule(&x);
    const double in[] = {1}, out[] = {1};
    pred_compute(&x, c, in);
    pred_update(&x, c, in, out);
    const struct PredRLS *p = c->pred;
    // P = (P - P x x' P / (lambda + x' P x)) / lambda with P = 10 I, x = (1, 1)
    const double want[] = {(10 - 100 / 20.5) / 0.5, (-100 / 20.5) / 0.5};
    if (fabs(p->matrix[0] - want[0]) > 1e-9 || fabs(p->matrix[1] - want[1]) > 1e-9) BAD("matrix %g %g, expected %g %g", p->matrix[0], p->matrix[1], want[0], want[1]);
    return 0;
}
'''))
S.append(dict(id='C19-softmax-shift', prop='C19',
    needs='a softmax layer with a low temperature and large inputs',
    breaks='the exponent is no longer bounded: large inputs overflow and the outputs are not numbers',
    edits=[('xcsf/neural_layer_softmax.c', 'exp((input[i] / l->scale) - (largest / l->scale))', 'exp((input[i] / l->scale) - largest)')],
    c=r'''
int main(void)
{
    struct Net net;
    neural_init(&net);
    struct ArgsLayer a;
    layer_args_init(&a);
    a.type = SOFTMAX;
    a.n_inputs = 3;
    a.scale = 0.1;
    neural_push(&net, layer_init(&a));
    const double in[] = {100, 99.9, 0};
    struct XCSF x;
    param_init(&x, 3, 3, 1);
    neural_propagate(&net, in, false);
    double sum = 0;
    for (int i = 0; i < 3; ++i) sum += neural_output(&net, i);
    if (!(fabs(sum - 1) < 1e-9)) BAD("the outputs sum to %g", sum);
    return 0;
}
'''))
S.append(dict(id='C21-active-count', prop='C21',
    needs='connection evolution that disables every connection of an input of a layer, which is then reconnected',
    breaks='the number of active connections is not counted up when an unused input is reconnected',
    edits=[('xcsf/neural_layer.c', '''                l->weight_active[offset + i] = true;
                ++(l->n_active);
                ++active;''', '''                l->weight_active[offset + i] = true;
                ++active;''')],
    c=r'''
int main(void)
{
    rand_init_seed(1);
    struct ArgsLayer a;
    layer_args_init(&a);
    a.type = CONNECTED;
    a.function = LINEAR;
    a.n_inputs = 2, a.n_init = 2, a.n_max = 2;
    struct Layer *l = layer_init(&a);
    for (int i = 0; i < 4; ++i) l->weight_active[i] = i % 2 == 0, l->weights[i] *= i % 2 == 0;
    l->n_active = 2;
    layer_ensure_input_represention(l);
    int n = 0;
    for (int i = 0; i < 4; ++i) n += l->weight_active[i];
    if (n != l->n_active) BAD("%d active connections, counted %d", n, l->n_active);
    return 0;
}
'''))
S.append(dict(id='C22-huber-delta', prop='C22',
    needs='the Huber loss with a delta other than one and an error above it',
    breaks='the linear part of the Huber loss is offset wrongly: it jumps at delta',
    edits=[('xcsf/loss.c', 'error += 0.5 * delta * delta + delta * (fabs(a) - delta);', 'error += 0.5 * delta + delta * (fabs(a) - delta);')],
    c=r'''
int main(void)
{
    struct XCSF x;
    param_init(&x, 1, 1, 1);
    param_set_huber_delta(&x, 0.5);
    const double p = 0, y = 2;
    if (fabs(loss_huber(&x, &p, &y) - 0.5 * (2 - 0.25)) > 1e-12) BAD("loss %g", loss_huber(&x, &p, &y));
    return 0;
}
'''))
S.append(dict(id='C23-loss-name', prop='C23',
    needs='a misspelt name of a loss function that starts like an existing one',
    breaks='a misspelt loss function is accepted silently as another one',
    edits=[('xcsf/loss.c', 'strncmp(type, LOSS_STRING_LOG, 4)', 'strncmp(type, LOSS_STRING_LOG, 3)')],
    c=r'''
int main(void)
{
    if (loss_type_as_int("logistic") != LOSS_INVALID) BAD("logistic is accepted as a loss function");
    if (loss_type_as_int("log") != LOSS_LOG) BAD("log is not");
    return 0;
}
'''))
S.append(dict(id='C24-teletransport', prop='C24',
    needs='a multi-step trial that reaches the limit on the number of steps',
    breaks='a trial goes on for one step more than the limit',
    edits=[('xcsf/xcs_rl.c', 'while (steps < xcsf->TELETRANSPORTATION && !done) {', 'while (!done && steps <= xcsf->TELETRANSPORTATION) {')],
    c=r'''
int main(void)
{
    FILE *f = fopen("maze.txt", "w");
    fputs("OOO\nO*O\nOOO\n", f); // no way out
    fclose(f);
    struct XCSF x;
    env_maze_init(&x, "maze.txt");
    x.env_vptr = &env_maze_vtbl;
    json(&x, "{\"condition\":{\"type\":\"dummy\"},\"prediction\":{\"type\":\"constant\"},\"action\":{\"type\":\"integer\"},\"pop_size\":100,\"pop_init\":false,\"teletransportation\":5,\"max_trials\":1,\"perf_trials\":1}");
    xcsf_init(&x);
    const double steps = xcs_rl_exp(&x);
    if (steps != 5) BAD("%g steps", steps);
    return 0;
}
'''))
S.append(dict(id='C25-maze-shape', prop='C25',
    needs='a maze that is not square, sensed or walked at its edge',
    breaks='mazes wrap around vertically at their width instead of their height',
    edits=[('xcsf/env_maze.c', '''            const int ysense =
                ((env->ypos + y) % env->ysize + env->ysize) % env->ysize;''', '''            const int ysense =
                ((env->ypos + y) % env->ysize + env->xsize) % env->ysize;''')],
    c=r'''
int main(void)
{
    FILE *f = fopen("maze.txt", "w");
    fputs("**O**\n*****\nFFFFF\n", f); // 5 wide, 3 high
    fclose(f);
    struct XCSF x;
    env_maze_init(&x, "maze.txt");
    struct EnvMaze *e = x.env;
    e->xpos = 1, e->ypos = 0;
    const double *s = env_maze_get_state(&x);
    if (s[0] != 0.7 || s[1] != 0.7 || s[2] != 0.7) BAD("above the first row: %g %g %g", s[0], s[1], s[2]);
    return 0;
}
'''))
S.append(dict(id='C28-subsumed-offspring', prop='C28',
    needs='offspring subsumption by one of several qualified members of the set that are not its parents',
    breaks='an offspring absorbed by a rule of the set is never freed',
    edits=[('xcsf/ea.c', '''            ++(candidates[rand_uniform_int(0, choices)]->cl->num);
            ++(xcsf->pset.num);
            cl_free(xcsf, c);''', '''            ++(candidates[rand_uniform_int(0, choices)]->cl->num);
            ++(xcsf->pset.num);
            if (choices == 1) {
                cl_free(xcsf, c);
            }''')],
    c=r'''
#include <malloc.h>
int main(void)
{
    struct XCSF x;
    param_init(&x, 30, 1, 1);
    param_set_random_state(&x, 5);
    json(&x, "{\"condition\":{\"type\":\"hyperrectangle_ubr\",\"args\":{\"min\":0,\"max\":1}},\"prediction\":{\"type\":\"constant\"},\"e0\":0.1,\"theta_sub\":10,\"pop_size\":1000000,\"pop_init\":false,\"ea\":{\"theta_ea\":0,\"subsumption\":true}}");
    xcsf_init(&x);
    // two parents that are not qualified, two other rules that are
    for (int k = 0; k < 4; ++k) {
        struct Cl *c = new_rule(&x);
        struct CondRectangle *r = c->cond;
        for (int i = 0; i < 30; ++i) r->b1[i] = k < 2 ? 0.4 : 0, r->b2[i] = k < 2 ? 0.6 : 1;
        c->fit = k < 2 ? 1 : 0;
        c->err = k < 2 ? 1 : 0;
        c->exp = 1000;
    }
    struct Set set = x.pset;
    clset_init(&x.kset);
    ea(&x, &set);
    const size_t before = mallinfo2().uordblks;
    for (int k = 0; k < 2000; ++k) {
        set = x.pset;
        ea(&x, &set);
    }
    const size_t after = mallinfo2().uordblks;
    if (x.pset.size != 4) BAD("%d rules", x.pset.size);
    if (after > before + 100000) BAD("%zu bytes more", after - before);
    return 0;
}
'''))
S.append(dict(id='C29-initial-rate', prop='C29',
    needs='an initial mutation rate drawn below the minimum (about one in two thousand)',
    breaks='initial rates may lie below the minimum rate',
    edits=[('xcsf/sam.c', '''            case SAM_UNIFORM:
                mu[i] = rand_uniform(MU_EPSILON, 1);
                break;
            case SAM_RATE_SELECT:
                mu[i] =''', '''            case SAM_UNIFORM:
                mu[i] = rand_uniform(0, 1);
                break;
            case SAM_RATE_SELECT:
                mu[i] =''')],
    c=r'''
int main(void)
{
    rand_init_seed(1);
    const int type[] = {SAM_LOG_NORMAL};
    for (int i = 0; i < 100000; ++i) {
        double mu;
        sam_init(&mu, 1, type);
        if (mu < 0.0005 || mu > 1) BAD("rate %g", mu);
    }
    return 0;
}
'''))
S.append(dict(id='C09-loaded-loss', prop='C09',
    needs='loading a model into an object that was set up with another loss function',
    breaks='the loaded model reports its own loss function but computes errors with the one the object had before',
    edits=[('xcsf/param.c', '''    loss_set_func(xcsf);
    return s;
''', '''    if (xcsf->loss_ptr == NULL) {
        loss_set_func(xcsf);
    }
    return s;
''')],
    c=r'''
int main(void)
{
    struct XCSF a, b;
    param_init(&a, 1, 1, 1);
    json(&a, "{\"condition\":{\"type\":\"dummy\"},\"prediction\":{\"type\":\"constant\"},\"pop_init\":false,\"loss_func\":\"mse\"}");
    xcsf_init(&a);
    new_rule(&a);
    xcsf_save(&a, "model.bin");
    param_init(&b, 1, 1, 1);
    json(&b, "{\"loss_func\":\"mae\",\"pop_init\":false}");
    xcsf_init(&b);
    xcsf_load(&b, "model.bin");
    const double p = 0, y = 3;
    if (b.loss_ptr(&b, &p, &y) != 9) BAD("loss %g, expected 9", b.loss_ptr(&b, &p, &y));
    return 0;
}
'''))
S.append(dict(id='C32-step-error', prop='C32',
    needs='a multi-step problem from Python whose largest payoff is not one',
    breaks='the error of a step that does not end the trial is not scaled by the largest payoff',
    edits=[('xcsf/pybind_wrapper.cpp', 'return xcs_rl_error(&xcs, action, payoff, done, max_p);', 'return xcs_rl_error(&xcs, action, payoff, done, done ? max_p : 1);')],
    py=r'''
import sys
import numpy as np
import xcsf
x = xcsf.XCS(x_dim=1, y_dim=1, n_actions=2, random_state=1, pop_size=100, pop_init=False, omp_num_threads=1, gamma=0.5, loss_func="mae",
             condition={"type": "dummy"}, action={"type": "integer"}, prediction={"type": "constant"})
s = np.array([0.5])
x.init_trial()
for i in range(2):
    x.init_step()
    x.decision(s, False)
    x.update(100.0, False)
    e = x.error(100.0, False, 1000.0)
    x.end_step()
x.end_trial()
sys.exit(e > 1)  # 100 / 1000 at most
'''))
S.append(dict(id='C33-unknown-seed', prop='C33',
    needs='a model created without a seed (random_state None) after another parameter was set',
    breaks='random_state=None is turned into the fixed seed 1: every model is the same',
    edits=[('xcsf/pybind_wrapper.cpp', '''            if (rs.is_none()) {
                kwargs_dict["random_state"] = -1;''', '''            if (rs.is_none()) {
                kwargs_dict["random_state"] = (kwargs_dict.size() > 1) ? 1 : -1;''')],
    py=r'''
import sys
import xcsf
x = xcsf.XCS(x_dim=2, random_state=None)
sys.exit(x.internal_params()["random_state"] != -1)
'''))
S.append(dict(id='C27-metric-trials', prop='C27',
    needs='calling fit() a second time on the same model',
    breaks='the trial numbers reported by a second fit() start again from zero',
    edits=[],
    py=''))
S.pop()
