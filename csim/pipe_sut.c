/* The library and generated models behind the calls of a small device firmware (C19).
 * The firmware itself (pipe_sim.cpp) runs in simulated tasks; everything here is real code. */
#include "units.c"
#include <eml_fileio.h>

typedef int (*wfn)(void *, const uint8_t *, size_t);
typedef int (*rfn)(void *, uint8_t *, size_t);
typedef int (*sfn)(void *, size_t);
int pf_file_write(void *f, const uint8_t *b, size_t n) { return eml_fileio_write(f, b, n); }
int pf_file_read(void *f, uint8_t *b, size_t n) { return eml_fileio_read(f, b, n); }
int pf_file_seek(void *f, size_t p) { return eml_fileio_seek(f, p); }

size_t pf_writer_size(void) { return sizeof(EmlCsvWriter); }
void pf_writer(void *p, wfn w, sfn s, void *stream, size_t cols) { EmlCsvWriter i = {.n_columns = cols, .write = w, .seek = s, .stream = stream}; *(EmlCsvWriter *)p = i; }
int pf_header(void *w, const char **n, size_t k) { return (int)eml_csv_writer_write_header(w, n, k); }
int pf_row(void *w, const float *v, size_t n) { return (int)eml_csv_writer_write_data(w, v, n); }
size_t pf_reader_size(void) { return sizeof(EmlCsvReader); }
void pf_reader(void *p, rfn r, sfn s, void *stream) { EmlCsvReader i = {.n_columns = 0, .read = r, .seek = s, .stream = stream}; *(EmlCsvReader *)p = i; }
int pf_read_header(void *r, char *b, size_t n, char **c, size_t k) { return (int)eml_csv_reader_read_header(r, b, n, c, k); }
int pf_read_row(void *r, char *b, size_t n, char **c, size_t k) { return eml_csv_reader_read_data(r, b, n, c, k); }

int pf_iir_check(int ns, float *st, const float *co) { EmlIIR f = {ns, st, 4 * ns, co, 6 * ns}; return eml_iir_check(f); }
float pf_iir(int ns, float *st, const float *co, float v) { EmlIIR f = {ns, st, 4 * ns, co, 6 * ns}; return eml_iir_filter(f, v); }

size_t pf_arr_size(void) { return sizeof(EmlArray); }
int pf_arr_init(void *a, int cols, int rows, int16_t *data) { int32_t d[2] = {cols, rows}; return eml_array_init_full(a, 2, d, 2, (uint8_t *)data, (size_t)cols * rows * 2); }
int pf_arr_push(void *a, int rows, int cols, int n, int16_t *chunk)
{
    EmlArray c; int32_t d[2] = {cols, n}; int rc;
    if ((rc = eml_array_init_full(&c, 2, d, 2, (uint8_t *)chunk, (size_t)cols * n * 2))) return rc;
    if ((rc = eml_array_shift_rows(a, -n))) return rc;
    return eml_array_copy_rows(a, rows - n, &c);
}
int pf_arr_sum(void *a, float *o) { return eml_array_sum(a, o); }
int pf_arr_get(void *a, int c, int r, int16_t *o) { int16_t *p = (int16_t *)eml_array_data_2d(a, c, r); if (!p) return 1; *o = *p; return 0; }

/* features of a window column by column: mean, quantized to 16 bits */
int pf_means(void *a, int cols, int rows, float scale, int16_t *out)
{
    float col[64], m[8]; int u = 0, v = 0; EmlQuantizer q = {scale};
    for (int c = 0; c < cols; c++) {
        for (int r = 0; r < rows; r++) { int16_t x; if (pf_arr_get(a, c, r, &x)) return 1; col[r] = x / scale; }
        m[c] = eml_signal_mean(col, rows);
    }
    return eml_quantizer_check_forward_int16(&q, m, cols, out, cols, &u, &v);
}
/* features of one column: windowed mel spectrum, 5 bands */
void *pf_fft_new(void) { return fft_new(); }
int pf_mels(void *fft, void *a, int rows, float *out)
{
    float io[NFFT], tmp[NFFT]; FftInst *f = fft;
    for (int i = 0; i < NFFT; i++) { int16_t x = 0; if (i < rows && pf_arr_get(a, 0, rows - 1 - i, &x)) return 1; io[i] = x / 1000.0f; tmp[i] = 0; }
    EmlVector v = {io, NFFT}, t = {tmp, NFFT}; int rc = eml_audio_melspectrogram(melp, f->fft, v, t); if (rc) return rc;
    for (int i = 0; i < 5; i++) out[i] = io[i];
    return 0;
}
/* learned items are part of what a device keeps over a restart */
int pf_knl_save(void *k, int16_t *data, int16_t *labels) { KnnInst *x = k; for (int i = 0; i < x->m.n_items * 4; i++) data[i] = x->data[i]; for (int i = 0; i < x->m.n_items; i++) labels[i] = x->labels[i]; return x->m.n_items; }
void pf_knl_load(void *k, int n, const int16_t *data, const int16_t *labels) { KnnInst *x = k; x->m.n_items = n; for (int i = 0; i < n * 4; i++) x->data[i] = data[i]; for (int i = 0; i < n; i++) x->labels[i] = labels[i]; }
int pf_knl_add(void *k, const int16_t *v, int n, int label) { KnnInst *x = k; return eml_neighbors_add_item(&x->m, v, n, label); }
