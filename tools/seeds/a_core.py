S.append(dict(id='C01-popfile-size', prop='C01',
    needs='an initial population file holding rules of numerosity above one, together with initial population seeding',
    breaks='the population is filled up to the limit in rules instead of numerosity: the total numerosity exceeds the limit from the start',
    edits=[('xcsf/clset.c', 'while (xcsf->pset.num < xcsf->POP_SIZE) {', 'while (xcsf->pset.size < xcsf->POP_SIZE) {')],
    c=r'''
int main(void)
{
    FILE *f = fopen("pop.json", "w");
    fputs("{\"classifiers\":[{\"numerosity\":5,\"condition\":{\"type\":\"dummy\"},\"prediction\":{\"type\":\"constant\"}}]}", f);
    fclose(f);
    struct XCSF x;
    param_init(&x, 2, 1, 1);
    json(&x, "{\"condition\":{\"type\":\"dummy\"},\"prediction\":{\"type\":\"constant\"},\"pop_size\":10,\"pop_init\":true,\"population_file\":\"pop.json\"}");
    xcsf_init(&x);
    int num = 0;
    for (struct Clist *i = x.pset.list; i; i = i->next) num += i->cl->num;
    if (num != 10 || x.pset.num != 10) BAD("numerosity %d (reported %d), limit 10", num, x.pset.num);
    return 0;
}
'''))
S.append(dict(id='C06-mean-time', prop='C06',
    needs='a set in which members of different numerosity last took part in evolution at different times',
    breaks='the mean time stamp of a set is taken over its rules and not their copies, so evolution does not run on schedule',
    edits=[('xcsf/clset.c', '    return clset_total_time(set) / set->num;', '    return clset_total_time(set) / set->size;')],
    c=r'''
int main(void)
{
    struct XCSF x;
    param_init(&x, 2, 1, 1);
    json(&x, "{\"condition\":{\"type\":\"dummy\"},\"prediction\":{\"type\":\"constant\"},\"pop_size\":1000,\"pop_init\":false,\"ea\":{\"theta_ea\":50}}");
    xcsf_init(&x);
    x.time = 100;
    struct Cl *a = new_rule(&x), *b = new_rule(&x);
    a->time = 10; // 20 of these
    a->num = 20;
    b->time = 20;
    x.pset.num = 21;
    clset_init(&x.kset);
    ea(&x, &x.pset); // mean time since is about 90: overdue
    if (x.pset.num == 21) BAD("evolution did not run");
    return 0;
}
'''))
S.append(dict(id='C08-compaction-size', prop='C08',
    needs='compaction enabled, system error below target, rules whose conditions are equally large but whose predictions differ in size',
    breaks='compaction no longer prefers the larger of two rules when they differ in the size of their predictions',
    edits=[('xcsf/clset.c', '            cl_cond_size(xcsf, iter->cl) + cl_pred_size(xcsf, iter->cl);', '            cl_cond_size(xcsf, iter->cl);')],
    c=r'''
int main(void)
{
    struct XCSF x;
    param_init(&x, 3, 1, 1);
    param_set_random_state(&x, 3);
    json(&x, "{\"condition\":{\"type\":\"dummy\"},\"compaction\":true,\"e0\":0.1,\"pop_size\":2000,\"pop_init\":false,"
         "\"prediction\":{\"type\":\"neural\",\"args\":{\"layer_0\":{\"type\":\"connected\",\"activation\":\"relu\",\"n_inputs\":3,\"n_init\":2,\"n_max\":9,\"evolve_weights\":true,\"evolve_neurons\":true,\"max_neuron_grow\":7},"
         "\"layer_1\":{\"type\":\"connected\",\"activation\":\"linear\",\"n_inputs\":2,\"n_init\":1}}}}");
    xcsf_init(&x);
    x.error = 0;
    struct Cl *a = new_rule(&x), *b = new_rule(&x);
    for (int i = 0; i < 200 && cl_pred_size(&x, b) <= cl_pred_size(&x, a); ++i) cl_mutate(&x, b);
    if (cl_pred_size(&x, b) <= cl_pred_size(&x, a)) BAD("could not grow a rule");
    int big = 0;
    for (int i = 0; i < 1000; ++i) {
        a->num = b->num = 10, a->size = b->size = 5, a->exp = b->exp = 0, a->mtotal = b->mtotal = 1;
        x.pset.num = 20;
        x.POP_SIZE = 19;
        clset_init(&x.kset);
        clset_pset_enforce_limit(&x);
        big += b->num < 10;
    }
    // the larger of two equally likely draws: three quarters
    if (big < 650) BAD("the larger rule was chosen %d times in 1000", big);
    return 0;
}
'''))
S.append(dict(id='C05-target-error', prop='C05',
    needs='a rule whose error equals the target error exactly (for example a target error of zero and a perfect rule, or a constant loss)',
    breaks='a rule at the target error is treated as inaccurate',
    edits=[('xcsf/cl.c', '    if (c->err > xcsf->E0) {', '    if (c->err > 0 && c->err >= xcsf->E0) {')],
    c=r'''
int main(void)
{
    struct XCSF x;
    param_init(&x, 1, 1, 1);
    json(&x, "{\"condition\":{\"type\":\"dummy\"},\"prediction\":{\"type\":\"constant\"},\"e0\":0.5,\"pop_init\":false}");
    xcsf_init(&x);
    struct Cl *c = new_rule(&x);
    c->err = 0.5;
    if (cl_acc(&x, c) != 1) BAD("a rule at the target error has accuracy %g", cl_acc(&x, c));
    return 0;
}
'''))
S.append(dict(id='C03-best-value', prop='C03',
    needs='several outputs, of which one other than the first is the largest',
    breaks='the best value is searched among the first n_actions entries of the prediction array only',
    edits=[('xcsf/pa.c', 'argmax(xcsf->pa, xcsf->pa_size)', 'argmax(xcsf->pa, xcsf->n_actions)')],
    c=r'''
int main(void)
{
    struct XCSF x;
    param_init(&x, 1, 3, 1);
    json(&x, "{\"condition\":{\"type\":\"dummy\"},\"prediction\":{\"type\":\"constant\"},\"pop_init\":false}");
    xcsf_init(&x);
    x.pa[0] = 1, x.pa[1] = 5, x.pa[2] = 2;
    if (pa_best_val(&x) != 5) BAD("best value %g", pa_best_val(&x));
    return 0;
}
'''))
S.append(dict(id='C04-score-learns', prop='C04',
    needs='scoring a random subsample directly after fitting',
    breaks='scoring a subsample after a fit is an exploring trial: it updates the rules and runs evolution',
    edits=[('xcsf/xcs_supervised.c', '''        return xcs_supervised_score(xcsf, data, cover);
    }
    param_set_explore(xcsf, false);
''', '''        return xcs_supervised_score(xcsf, data, cover);
    }
''')],
    c=r'''
int main(void)
{
    struct XCSF x;
    param_init(&x, 1, 1, 1);
    param_set_random_state(&x, 1);
    json(&x, "{\"pop_size\":50,\"pop_init\":true}");
    xcsf_init(&x);
    double in[] = {0.1, 0.4, 0.9, 0.7}, out[] = {1, 0, 0, 1}, cover[] = {0};
    struct Input d = {in, out, 1, 1, 4};
    xcs_supervised_fit(&x, &d, NULL, true, 0, 50);
    const int time = x.time;
    xcs_supervised_score_n(&x, &d, 3, cover);
    if (x.time != time) BAD("scoring advanced the clock from %d to %d", time, x.time);
    return 0;
}
'''))
S.append(dict(id='C07-wrong-parent', prop='C07',
    needs='offspring subsumption where the first parent is not qualified but the second one is, and is more general',
    breaks='the numerosity of an absorbed offspring is given to the parent that did not absorb it',
    edits=[('xcsf/ea.c', '''cl_general(xcsf, c2p, c)) {
        ++(c2p->num);''', '''cl_general(xcsf, c2p, c)) {
        ++(c1p->num);''')],
    c=r'''
int main(void)
{
    struct XCSF x;
    param_init(&x, 8, 1, 1);
    param_set_random_state(&x, 5);
    json(&x, "{\"condition\":{\"type\":\"hyperrectangle_ubr\",\"args\":{\"eta\":0,\"min\":0,\"max\":1}},\"prediction\":{\"type\":\"constant\"},\"e0\":0.1,\"theta_sub\":10,\"pop_size\":100000,\"pop_init\":false,"
         "\"ea\":{\"theta_ea\":0,\"p_crossover\":1,\"subsumption\":true}}");
    xcsf_init(&x);
    struct Cl *a = new_rule(&x), *b = new_rule(&x);
    struct CondRectangle *ra = a->cond, *rb = b->cond;
    for (int i = 0; i < 8; ++i) ra->b1[i] = 0.4, ra->b2[i] = 0.6, rb->b1[i] = 0, rb->b2[i] = 1;
    a->err = 1, a->exp = 0;
    b->err = 0, b->exp = 1000;
    for (int k = 0; k < 200; ++k) {
        a->num = b->num = 1, a->fit = b->fit = 0.5;
        struct Clist l2 = {b, NULL}, l1 = {a, &l2};
        struct Set set = {&l1, 2, 2};
        clset_init(&x.kset);
        ea(&x, &set);
        // different parents: crossover mixes them, and the qualified one
        // generalises and absorbs both offspring
        if (a->num > 1 && b->num > 1) BAD("the unqualified rule absorbed an offspring");
        x.pset.num = 2;
    }
    return 0;
}
'''))
