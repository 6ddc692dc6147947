/* Small helpers shared by the demonstrations. */
#include "act_integer.h"
#include "act_neural.h"
#include "action.h"
#include "cl.h"
#include "clset.h"
#include "clset_neural.h"
#include "cond_dgp.h"
#include "cond_ellipsoid.h"
#include "cond_gp.h"
#include "cond_neural.h"
#include "cond_rectangle.h"
#include "cond_ternary.h"
#include "condition.h"
#include "config.h"
#include "ea.h"
#include "env_csv.h"
#include "env_maze.h"
#include "env_mux.h"
#include "loss.h"
#include "neural.h"
#include "neural_activations.h"
#include "neural_layer.h"
#include "neural_layer_args.h"
#include "neural_layer_connected.h"
#include "pa.h"
#include "param.h"
#include "pred_constant.h"
#include "pred_neural.h"
#include "pred_nlms.h"
#include "pred_rls.h"
#include "prediction.h"
#include "rule_dgp.h"
#include "sam.h"
#include "utils.h"
#include "xcs_rl.h"
#include "xcs_supervised.h"
#include "xcsf.h"
#include <float.h>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define BAD(...) \
    do { \
        printf(__VA_ARGS__); \
        puts(""); \
        exit(1); \
    } while (0)

static void
json(struct XCSF *x, const char *text)
{
    param_json_import(x, text);
}

static struct Cl *
new_rule(struct XCSF *x)
{
    struct Cl *c = malloc(sizeof(struct Cl));
    cl_init(x, c, 1, x->time);
    cl_rand(x, c);
    clset_add(&x->pset, c);
    return c;
}
