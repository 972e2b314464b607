/* The offline motion feature extraction tool and its preprocessing, with accessors for the simulator. */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <stdbool.h>
#include <string.h>
FILE *msim_fopen(const char *path, const char *mode);
int msim_fclose(FILE *f);
#include "eml_csv.h"
long msim_rows = 0, msim_row_error = 0, msim_rows_before_error = 0; // rows that were read; first row that could not be read
static int msim_read_data(EmlCsvReader *r, char *b, size_t n, char **c, size_t m) {
    const int v = eml_csv_reader_read_data(r, b, n, c, m);
    if (v > 0) msim_rows++;
    if (v < 0 && !msim_row_error) { msim_row_error = v; msim_rows_before_error = msim_rows; }
    return v;
}
#define eml_csv_reader_read_data msim_read_data
#define fopen msim_fopen
#define fclose msim_fclose
#define main motion_main
#include "tools/motion_process.c"
#undef main
#undef fopen
#undef fclose
#undef eml_csv_reader_read_data
size_t mp_size(void) { return sizeof(struct motion_preprocessor); }
int mp_fft_length(void) { return MOTION_FFT_LENGTH; }
int mp_columns_max(void) { return OUTPUT_COLUMNS_LENGTH; }
int mp_window_max(void) { return WINDOW_LENGTH_MAX; }
int mp_init(void *p, int rate, int window) { return motion_preprocessor_init(p, rate, window); }
int mp_gravity(void *p, const float *c, int n) { return motion_preprocessor_set_gravity_lowpass(p, c, n); }
int mp_fft(void *p, int a, int b) { return motion_preprocessor_set_fft_features(p, a, b); }
int mp_run(void *p, const float *d, int n) { return motion_preprocessor_run(p, d, n); }
int mp_length(void *p) { return motion_preprocessor_get_feature_length(p); }
int mp_get(void *p, float *o, size_t n) { return motion_preprocessor_get_features(p, o, n); }
int mp_name(void *p, int i, char *o, size_t n) { return motion_preprocessor_get_feature_name(p, i, o, n); }
const float *mp_lowpass(int *n) { *n = gravity_lowpass_length; return gravity_lowpass_values; }
