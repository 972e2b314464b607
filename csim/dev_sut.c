/* Thin C wrappers around the real library for the device simulators (kNN, array, IIR). */
#include <eml_neighbors.h>
#include <eml_array.h>
#include <eml_iir.h>
#include <string.h>

/* ---- nearest neighbours ---- */
void knn_setup(EmlNeighborsModel *m, int nf, int n, int cap, int16_t *data, int16_t *labels, int k)
{
    memset(m, 0, sizeof *m);
    m->n_features = nf; m->n_items = n; m->max_items = cap; m->data = data; m->labels = labels; m->k_neighbors = k;
}
size_t knn_model_size(void) { return sizeof(EmlNeighborsModel); }
size_t knn_dist_size(void) { return sizeof(EmlNeighborsDistanceItem); }
int knn_items(EmlNeighborsModel *m) { return m->n_items; }
int knn_add(EmlNeighborsModel *m, const int16_t *v, int n, int label) { return eml_neighbors_add_item(m, v, n, label); }
int knn_predict(EmlNeighborsModel *m, const int16_t *v, int n, void *dist, int dl, int16_t *out) { return eml_neighbors_predict(m, v, n, (EmlNeighborsDistanceItem *)dist, dl, out); }
int knn_check(EmlNeighborsModel *m, int d, int l, int x) { return eml_neighbors_check(m, d, l, x); }

/* ---- array ---- */
size_t arr_size(void) { return sizeof(EmlArray); }
int arr_init(EmlArray *a, int nd, int32_t *dims, int vs, uint8_t *buf, size_t len) { return eml_array_init_full(a, nd, dims, vs, buf, len); }
int arr_shift(EmlArray *a, int s) { return eml_array_shift_rows(a, s); }
int arr_copy(EmlArray *a, int start, const EmlArray *o) { return eml_array_copy_rows(a, start, o); }
int arr_fill(EmlArray *a, float v) { return eml_array_fill(a, v); }
int arr_sum(EmlArray *a, float *o) { return eml_array_sum(a, o); }
void *arr_at(EmlArray *a, int col, int row) { return eml_array_data_2d(a, col, row); }
size_t arr_storage(EmlArray *a) { return eml_array_storage_size(a); }

/* ---- IIR ---- */
int iir_check(int ns, float *st, int sl, const float *co, int cl) { EmlIIR f = { ns, st, sl, co, cl }; return eml_iir_check(f); }
float iir_filter(int ns, float *st, int sl, const float *co, int cl, float in) { EmlIIR f = { ns, st, sl, co, cl }; return eml_iir_filter(f, in); }
