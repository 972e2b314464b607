// The code under test for the CSV simulations: the real CSV reader/writer and FILE adapter.
// Only public API and public struct fields are used.
#include <stdint.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <eml_csv.h>
#include <eml_fileio.h>

typedef int (*wfn)(void *, const uint8_t *, size_t);
typedef int (*rfn)(void *, uint8_t *, size_t);
typedef int (*sfn)(void *, size_t);

int sut_file_write(void *f, const uint8_t *b, size_t n) { return eml_fileio_write(f, b, n); }
int sut_file_read(void *f, uint8_t *b, size_t n) { return eml_fileio_read(f, b, n); }
int sut_file_seek(void *f, size_t p) { return eml_fileio_seek(f, p); }

void *sut_writer(wfn w, sfn s, void *stream, size_t n_columns) {
    EmlCsvWriter init = { .n_columns = n_columns, .write = w, .seek = s, .stream = stream };
    EmlCsvWriter *p = malloc(sizeof *p); *p = init; return p;
}
int sut_write_header(void *w, const char **names, size_t n) { return (int)eml_csv_writer_write_header(w, names, n); }
int sut_write_row(void *w, const float *v, size_t n) { return (int)eml_csv_writer_write_data(w, v, n); }

void *sut_reader(rfn r, sfn s, void *stream) {
    EmlCsvReader init = { .n_columns = 0, .read = r, .seek = s, .stream = stream };
    EmlCsvReader *p = malloc(sizeof *p); *p = init; return p;
}
int sut_read_header(void *r, char *buf, size_t n, char **cols, size_t nc) { return (int)eml_csv_reader_read_header(r, buf, n, cols, nc); }
int sut_read_row(void *r, char *buf, size_t n, char **cols, size_t nc) { return eml_csv_reader_read_data(r, buf, n, cols, nc); }
size_t sut_reader_columns(void *r) { return ((EmlCsvReader *)r)->n_columns; }
