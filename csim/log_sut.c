/* The library's units that log, compiled with the log off (ON=0) and with it on (ON=1) over a simulated console. */
#include <stdio.h>
#include <stdbool.h>
#include <stdint.h>
#include <string.h>
#if ON
#define EML_LOG_ENABLE 1
#define EML_TREES_TRACE 1
#define EML_NEIGHBORS_LOG_LEVEL 3
int sim_console(void *stream, const char *types, const char *format, ...);
/* the types of the arguments go along, so that the console can tell what the format makes of them */
#define T(x) _Generic((x), float: 'f', double: 'f', char *: 's', const char *: 's', long: 'l', unsigned long: 'l', long long: 'l', unsigned long long: 'l', \
    char: 'i', signed char: 'i', unsigned char: 'i', short: 'i', unsigned short: 'i', int: 'i', unsigned: 'i', _Bool: 'i', default: 'p')
#define L1(s, f) sim_console(s, "", f)
#define L2(s, f, a) sim_console(s, (char[]){T(a), 0}, f, a)
#define L3(s, f, a, b) sim_console(s, (char[]){T(a), T(b), 0}, f, a, b)
#define L4(s, f, a, b, c) sim_console(s, (char[]){T(a), T(b), T(c), 0}, f, a, b, c)
#define L5(s, f, a, b, c, d) sim_console(s, (char[]){T(a), T(b), T(c), T(d), 0}, f, a, b, c, d)
#define L6(s, f, a, b, c, d, e) sim_console(s, (char[]){T(a), T(b), T(c), T(d), T(e), 0}, f, a, b, c, d, e)
#define L7(s, f, a, b, c, d, e, g) sim_console(s, (char[]){T(a), T(b), T(c), T(d), T(e), T(g), 0}, f, a, b, c, d, e, g)
#define L8(s, f, a, b, c, d, e, g, h) sim_console(s, (char[]){T(a), T(b), T(c), T(d), T(e), T(g), T(h), 0}, f, a, b, c, d, e, g, h)
#define NTH(a, b, c, d, e, f, g, h, n, ...) n
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define PRINT(s, ...) CAT(L, NTH(__VA_ARGS__, 8, 7, 6, 5, 4, 3, 2, 1, 0))(s, __VA_ARGS__)
#define fprintf(s, ...) PRINT((void *)(s), __VA_ARGS__)
#define printf(...) PRINT((void *)stdout, __VA_ARGS__)
#define N(x) on_##x
#else
#define N(x) off_##x
#endif
#include <eml_common.h>
#include <eml_log.h>
#include <eml_trees.h>
#include <eml_neighbors.h>
#include <eml_array.h>

int N(predict)(void *nodes, int n_nodes, int32_t *roots, int n_trees, uint8_t *leaves, int n_leaves, int bits, int nf, int nc, const int16_t *x, int n)
{
    EmlTrees t = {n_nodes, (EmlTreesNode *)nodes, n_trees, roots, n_leaves, leaves, bits, nf, nc};
    return eml_trees_predict(&t, x, n);
}
int N(regress)(void *nodes, int n_nodes, int32_t *roots, int n_trees, uint8_t *leaves, int n_leaves, int nf, const int16_t *x, int n, float *out, int out_length)
{
    EmlTrees t = {n_nodes, (EmlTreesNode *)nodes, n_trees, roots, n_leaves, leaves, 32, nf, 1};
    return eml_trees_regress(&t, x, n, out, out_length);
}
void N(node)(void *nodes, int i, int feature, int value, int left, int right)
{
    EmlTreesNode n; memset(&n, 0, sizeof n);
    n.feature = feature; n.value = value; n.left = left; n.right = right;
    memcpy((EmlTreesNode *)nodes + i, &n, sizeof n);
}
int N(node_size)(void) { return sizeof(EmlTreesNode); }
int N(knn_size)(void) { return sizeof(EmlNeighborsModel); }
int N(knn_dist_size)(void) { return sizeof(EmlNeighborsDistanceItem); }
void N(knn_setup)(void *m, int nf, int cap, int16_t *data, int16_t *labels, int k)
{
    EmlNeighborsModel *s = m; memset(s, 0, sizeof *s);
    s->n_features = nf; s->max_items = cap; s->data = data; s->labels = labels; s->k_neighbors = k;
}
int N(knn_add)(void *m, const int16_t *v, int n, int label) { return eml_neighbors_add_item(m, v, n, label); }
int N(knn_predict)(void *m, const int16_t *v, int n, void *d, int dl, int16_t *out) { return eml_neighbors_predict(m, v, n, d, dl, out); }
/* entries of an application, as documented in eml_log.h */
void N(entry)(const char *text, int i, bool b, float f, const float *values, int n)
{
    EML_LOG_BEGIN("my-event");
    EML_LOG_ADD("text", text);
    EML_LOG_ADD_INTEGER("integer", i);
    EML_LOG_ADD_BOOL("flag", b);
    EML_LOG_ADD_BOOL("positive", i > 0 && b);
    EML_LOG_ADD_FLOAT("number", f);
    EML_LOG_ADD_ARRAY("values", values, n, "%.3f");
    EML_LOG_END();
}
