// Independent reference evaluation of rules, written from the definitions.
#pragma once
#include "common.hpp"

// memory of recurrent layers, by layer; missing entries are taken from the
// layer itself
struct RefMem {
    std::map<const Layer *, std::vector<double>> out, cell;
};
double ref_act(int f, double x);
// output of every layer (input side first) for input x outside training;
// remembers recurrent state in mem when given
std::vector<std::vector<double>> ref_net(const Net *n, const double *x, RefMem *mem = nullptr);
std::vector<double> ref_layer(const Layer *l, const std::vector<double> &in, RefMem *mem = nullptr);
// value of the tree; false when it is not a complete prefix program
bool ref_tree(const int *tree, int len, const ArgsGPTree *a, const double *x, double *out);
// state after an update
std::vector<double> ref_graph(const Graph *g, const double *x, bool reset);
// value that decides the match; margin to the decision boundary in *margin
// (infinite for exactly decided types)
bool ref_match(const XCSF *x, const Cl *c, const double *in, double *margin);
// action advocated for the input (evaluated like ref_match)
int ref_action(const XCSF *x, const Cl *c, const double *in, double *margin);
double ref_loss(const XCSF *x, const double *pred, const double *y);
// is rule a at least as general as b (condition and action)? *amb is set when
// rounding decides
bool ref_general(const XCSF *x, const Cl *a, const Cl *b, bool *amb);
bool ref_cond_general(const XCSF *x, const Cl *a, const Cl *b, bool *amb);
