/* The computational units of the library and of generated code behind one calling interface,
 * for the RTOS simulations (C05-C07). Compiled as C99 with the generated headers on the path. */
#include <stdlib.h>
#include <string.h>
/* memory moves become instrumented loops: a preemption can fall into the middle of one */
void *sim_memcpy(void *d, const void *s, size_t n) { unsigned char *a = d; const unsigned char *b = s; for (size_t i = 0; i < n; i++) a[i] = b[i]; return d; }
void *sim_memset(void *d, int c, size_t n) { unsigned char *a = d; for (size_t i = 0; i < n; i++) a[i] = (unsigned char)c; return d; }
void *sim_memmove(void *d, const void *s, size_t n) { unsigned char *a = d; const unsigned char *b = s; if (a < b) for (size_t i = 0; i < n; i++) a[i] = b[i]; else for (size_t i = n; i-- > 0;) a[i] = b[i]; return d; }
#define memcpy sim_memcpy
#define memset sim_memset
#define memmove sim_memmove
#include <eml_common.h>
#include <eml_trees.h>
#include <eml_net.h>
#include <eml_bayes.h>
#include <eml_mixture.h>
#include <eml_distance.h>
#include <eml_neighbors.h>
#include <eml_fft.h>
#include <eml_vector.h>
#include <eml_audio.h>
#include <eml_iir.h>
#include <eml_quantizer.h>
#include <eml_array.h>
#include <eml_csv.h>
#include "tri.h"
#include "rfl.h"
#include "rfp.h"
#include "eti.h"
#include "rgl.h"
#include "rgi.h"
#include "nb2.h"
#include "nml.h"
#include "nrm.h"
#include "nrl.h"
#include "nmi.h"
#include "nbi.h"
#include "bay.h"
#include "mix.h"
#include "ell.h"
#include "knn.h"
#include "wtl.h"
#include "wti.h"
#include "wrl.h"
#include "wnl.h"
#include "wni.h"
#include "wbn.h"
#include "wmx.h"
#include "wmt.h"
#include "wel.h"
#include "wkn.h"
#include "units.h"

#define CALL static int
#define ARGS (void *self, const void *vin, int nin, float *out, int nout, void *scr, int nscr)
#define F ((const float *)vin)
#define H ((const int16_t *)vin)
/* predict functions: class or a negative error */
#define CLS(expr) do { int32_t c_ = (expr); if (c_ < 0) return -c_; out[0] = (float)c_; return 0; } while (0)
#define VAL(expr) do { float v_ = (expr); if (isnan(v_)) return 1; out[0] = v_; return 0; } while (0)

/* variant 0: as configured; 1 .. n: one of n configurations that can not work */
#define VARIANT(n, full) const int wrong = nscr < 0 ? (-1 - nscr) % (n) + 1 : 0; if (nscr < 0) nscr = (full)

/* ---- trees ---- */
CALL tri_p ARGS { CLS(tri_predict(H, nin)); }
CALL tri_pp ARGS { return tri_predict_proba(H, nin, out, nout); }
CALL rfl_p ARGS { CLS(rfl_predict(H, nin)); }
CALL rfl_pp ARGS { return rfl_predict_proba(H, nin, out, nout); }
CALL rfl_e ARGS { VARIANT(2, 0); EmlTrees m = rfl; if (wrong == 1) m.leaf_bits = 5; if (wrong == 2) m.n_classes = EMTREES_MAX_CLASSES + 1; CLS(eml_trees_predict(&m, H, nin)); }
CALL rfl_q ARGS { VARIANT(3, 0); EmlTrees m = rfl; if (wrong) m.leaf_bits = wrong == 1 ? 5 : wrong == 2 ? 32 : -1; return eml_trees_predict_proba(&m, H, nin, out, nout); }
CALL rfp_p ARGS { CLS(rfp_predict(H, nin)); }
CALL rfp_pp ARGS { return rfp_predict_proba(H, nin, out, nout); }
CALL eti_p ARGS { CLS(eti_predict(F, nin)); }
CALL eti_pp ARGS { return eti_predict_proba(F, nin, out, nout); }
CALL rgl_p ARGS { VAL(rgl_predict(H, nin)); }
CALL rgl_r ARGS { VARIANT(2, 0); EmlTrees m = rgl; if (wrong) m.leaf_bits = wrong == 1 ? 8 : 0; return eml_trees_regress(&m, H, nin, out, nout); }
CALL rgl_r1 ARGS { VAL(eml_trees_regress1(&rgl, H, nin)); }
CALL rgi_p ARGS { VAL(rgi_predict(F, nin)); }
/* ---- networks ---- */
typedef struct { EmlNet net; } NetInst;
static void *net_new(const EmlNet *m) { NetInst *n = malloc(sizeof *n); n->net = *m; n->net.activations1 = malloc(sizeof(float) * m->activations_length); n->net.activations2 = malloc(sizeof(float) * m->activations_length); unit_dirty(n->net.activations1, sizeof(float) * m->activations_length); unit_dirty(n->net.activations2, sizeof(float) * m->activations_length); return n; }
static void net_dirty(void *p) { NetInst *n = p; unit_dirty(n->net.activations1, sizeof(float) * n->net.activations_length); unit_dirty(n->net.activations2, sizeof(float) * n->net.activations_length); }
#define NET (&((NetInst *)self)->net)
static void *nb2_new(void) { return net_new(&nb2); }
static void *nml_new(void) { return net_new(&nml); }
static void *nrm_new(void) { return net_new(&nrm); }
static void *nrl_new(void) { return net_new(&nrl); }
/* the instance with something missing, for one call */
static EmlNet net_wrong(const EmlNet *n, int wrong, EmlNetLayer *l)
{
    EmlNet m = *n; int last = m.n_layers - 1;
    for (int i = 0; i <= last && i < 8; i++) l[i] = n->layers[i];
    if (wrong) m.layers = l;
    switch (wrong) {
    case 1: m.layers = 0; break; case 2: m.activations1 = 0; break; case 3: m.activations2 = 0; break; case 4: m.n_layers = 1; break; case 5: m.n_layers = 0; break;
    case 6: l[0].weights = 0; break; case 7: l[last].weights = 0; break; case 8: l[last].biases = 0; break; case 9: l[0].biases = 0; break; case 10: l[0].activation = (EmlNetActivationFunction)77; break; case 11: l[last].activation = (EmlNetActivationFunction)-1; break;
    case 12: l[last].n_inputs = m.activations_length + 1; break; case 13: l[last / 2].n_outputs = m.activations_length + 3; break;
    }
    return m;
}
CALL net_w ARGS { VARIANT(13, 0); EmlNetLayer l[8]; EmlNet m = net_wrong(NET, wrong == 5 ? 4 : wrong, l); return NET->layers[NET->n_layers - 1].n_outputs == 1 ? eml_net_regress(&m, F, nin, out, wrong == 4 ? l[0].n_outputs : nout) : eml_net_predict_proba(&m, F, nin, out, nout); }
CALL net_p ARGS { CLS(eml_net_predict(NET, F, nin)); }
CALL net_pp ARGS { return eml_net_predict_proba(NET, F, nin, out, nout); }
CALL net_r ARGS { return eml_net_regress(NET, F, nin, out, nout); }
CALL net_r1 ARGS { VAL(eml_net_regress1(NET, F, nin)); }
/* the activations buffer of the instance declared too short: must be refused */
CALL net_short ARGS { int32_t l = NET->activations_length; NET->activations_length = nscr; int rc = eml_net_regress(NET, F, nin, out, nout); NET->activations_length = l; return rc; }
CALL nb2_gp ARGS { CLS(nb2_predict(F, nin)); }
CALL nb2_gr ARGS { return nb2_regress(F, nin, out, nout); }
CALL nb2_g1 ARGS { VAL(nb2_regress1(F, nin)); }
CALL nml_gp ARGS { CLS(nml_predict(F, nin)); }
CALL nml_gr ARGS { return nml_regress(F, nin, out, nout); }
CALL nrm_gr ARGS { return nrm_regress(F, nin, out, nout); }
CALL nrl_g1 ARGS { VAL(nrl_regress1(F, nin)); }
CALL nmi_p ARGS { CLS(nmi_predict(F, nin)); }
CALL nbi_p ARGS { CLS(nbi_predict(F, nin)); }
CALL nmi_i ARGS { float *a = scr, *b = a + nscr; int rc = nmi_infer(F, nin, a, b, nscr); if (rc) return rc; for (int i = 0; i < 4; i++) out[i] = b[i]; return 0; }
CALL nbi_i ARGS { float *a = scr, *b = a + nscr; int rc = nbi_infer(F, nin, a, b, nscr); if (rc) return rc; out[0] = b[0]; return 0; }
CALL net_pw ARGS { VARIANT(11, 0); EmlNetLayer l[8]; EmlNet m = net_wrong(NET, wrong, l); CLS(eml_net_predict(&m, F, nin)); }
CALL layer ARGS { VARIANT(4, 0); EmlNetLayer l = nb2.layers[0]; l.activation = EmlNetActivationTanh; if (wrong == 1) l.weights = 0; if (wrong == 2) l.biases = 0; if (wrong == 3) l.n_inputs = nin + 1; if (wrong == 4) l.n_outputs = nout + 1; return eml_net_layer_forward(&l, F, nin, out, nout); }
CALL softmax ARGS { return eml_net_softmax(out, nin); }
CALL argmax ARGS { int32_t c = eml_net_argmax(F, nin); out[0] = c; return 0; }
/* ---- other models ---- */
CALL bay_p ARGS { CLS(bay_predict(F, nin)); }
CALL bay_e ARGS { VARIANT(5, 0); EmlBayesModel m = bay_model; if (wrong) m.n_classes = wrong == 1 ? 1 : wrong == 2 ? 0 : wrong == 3 ? EML_MAX_CLASSES + 1 : -1; CLS(eml_bayes_predict(wrong == 5 ? 0 : &m, F, nin)); }
CALL mix_l ARGS { return mix_predict_log_proba(F, nin, out); }
CALL mix_s ARGS { return mix_score(F, nin, out, out + 3); }
CALL mix_w ARGS { VARIANT(8, 0); if (wrong == 6) return eml_mixture_predict_log_proba(0, F, nin, out); if (wrong == 7) return eml_mixture_score(0, F, nin, out, out + 1); if (wrong == 8) return eml_mixture_predict_proba(0, F, nin, out, out, out + 1); EmlMixtureModel m = mix_model; if (wrong == 1) m.n_components = 0; if (wrong == 2) m.n_components = -2; if (wrong > 2) m.covariance_type = wrong == 3 ? EmlCovarianceTied : wrong == 4 ? EmlCovarianceDiagonal : EmlCovarianceSpherical; return eml_mixture_predict_log_proba(&m, F, nin, out); }
CALL mix_pp ARGS { return mix_predict_proba(F, nin, out, out + 3, out + 4); }
CALL mix_len ARGS { EmlMixtureModel m = {nin, nin + 2, EmlCovarianceFull, 0, 0, 0, 0}; for (int i = 0; i < 4; i++) { m.covariance_type = (EmlCovarianceType)i; m.n_features = nin + (F[i] > -90 && F[i] < 90 ? (int)(F[i] * F[i]) % 50 : 3); out[i] = eml_mixture_precisions_length(&m); } return 0; }
CALL bay_h ARGS { for (int i = 0; i < 5; i++) { float x = F[i] > -90 && F[i] < 90 ? F[i] : 1; eml_q16_t v = EML_Q16_FROMFLOAT(x), sd = EML_Q16_FROMFLOAT(1.5f + i); out[i] = eml_bayes_logpdf(v, EML_Q16_FROMFLOAT(0.5f * i), sd, eml_bayes_log2fix((uint32_t)sd, 16)) + eml_bayes_logpdf_std(v > 0 ? v : -v) % 1000; } return 0; }
CALL ell_p ARGS { VAL(ell_predict(F, nin)); }
CALL ell_e ARGS { float d = -1; int c = eml_elliptic_envelope_predict(&ell_classifier, F, nin, &d); if (c < 0) return -c; out[0] = c; out[1] = d; return 0; }
/* ---- nearest neighbours ---- */
CALL knn_p ARGS { VARIANT(2, 24); EmlNeighborsModel m = knn; if (wrong) m.k_neighbors = m.n_items + (wrong == 1 ? 1 : 100); int16_t o = -99; int rc = eml_neighbors_predict(&m, H, nin, scr, nscr, &o); if (rc) { if (o != -99) out[0] = o; return rc; } out[0] = o; return 0; }
typedef struct { EmlNeighborsModel m; int16_t data[20 * 4], labels[20]; EmlNeighborsDistanceItem d[20]; } KnnInst;
static void *knl_new(void) { KnnInst *k = calloc(1, sizeof *k); EmlNeighborsModel m = {4, 0, 20, k->data, k->labels, 3}; k->m = m; return k; }
CALL knl_add ARGS { KnnInst *k = self; int l = ((uint16_t)H[0]) % 4; return eml_neighbors_add_item(&k->m, H, nin, l); }
CALL knl_p ARGS { KnnInst *k = self; int16_t o = -99; int rc = eml_neighbors_predict(&k->m, H, nin, k->d, 20, &o); out[0] = rc ? -1 : o; out[1] = k->m.n_items; for (int i = 0; i < 80; i++) out[2 + i] = i < k->m.n_items * 4 ? k->data[i] : 0; return rc; }
/* ---- features ---- */
#define NFFT 32
typedef struct { float s[NFFT / 2], c[NFFT / 2]; EmlFFT fft; } FftInst;
static void *fft_new(void) { FftInst *f = malloc(sizeof *f); EmlFFT t = {NFFT / 2, f->s, f->c}; f->fft = t; eml_fft_fill(f->fft, NFFT); return f; }
CALL fft_f ARGS { VARIANT(3, 4 * NFFT); FftInst g = *(FftInst *)self, *f = &g; if (wrong) g.fft.length = wrong == 1 ? NFFT / 4 : wrong == 2 ? NFFT : 0; float *im = scr; for (int i = 0; i < nscr; i++) im[i] = 0; int rc = eml_fft_forward(f->fft, out, scr, nin); if (rc) for (int i = 0; i < nscr; i++) if (im[i] != 0) out[0] += 1; return rc; }
CALL fft_fc ARGS { FftInst *f = self; float *im = scr; for (int i = 0; i < NFFT; i++) im[i] = F[(i * 7 + 3) % NFFT]; for (int i = 0; i < NFFT; i++) out[i] = F[i]; int rc = eml_fft_forward(f->fft, out, im, nin); if (rc) return rc; for (int i = 0; i < NFFT; i++) out[NFFT + i] = im[i]; return 0; }
CALL fft_t ARGS { VARIANT(3, 0); float s[NFFT / 2], c[NFFT / 2]; EmlFFT t = {NFFT / 2, s, c}; if (wrong) t.length = wrong == 1 ? NFFT / 2 - 1 : wrong == 2 ? NFFT : 0; int rc = eml_fft_fill(t, nin); if (rc) return rc; for (int i = 0; i < NFFT / 2; i++) { out[i] = s[i]; out[NFFT / 2 + i] = c[i]; } return 0; }
static const EmlAudioMel melp = {5, 0.0f, 4000.0f, NFFT, 8000};
/* filterbanks that reach beyond the spectrum (from the first bin that is not there) or below 0 Hz */
#define MEL_WRONG 9
static EmlAudioMel mel_wrong(EmlAudioMel m, int wrong)
{
    const float beyond = (float)m.samplerate * (1 + m.n_fft / 2) / (m.n_fft + 1);
    switch (wrong) {
    case 1: m.fmax = beyond * 1.004f; break; case 2: m.fmax = m.samplerate * 0.75f; break; case 3: m.fmax = m.samplerate * 3.0f; break;
    case 4: m.fmin = -1.0f; break; case 5: m.fmin = -(float)m.samplerate / m.n_fft; break; case 6: m.fmin = -500.0f; break;
    case 7: m.samplerate /= 3; break; case 8: m.fmin = m.samplerate * 0.7f; m.fmax = m.samplerate * 0.8f; break; case 9: m.n_fft *= 2; break;
    }
    return m;
}
CALL mel_sg ARGS { VARIANT(MEL_WRONG + 3, NFFT); FftInst g = *(FftInst *)self, *f = &g; EmlVector io = {out, nin}, t = {scr, nscr}; EmlAudioMel m = mel_wrong(melp, wrong); if (wrong == 10) m.n_mels = NFFT + 1; if (wrong == 11) g.fft.length = NFFT / 4; if (wrong == 12) { io.length = m.n_fft = NFFT * 3 / 4; m.samplerate = m.samplerate * 3 / 4; m.fmax = m.samplerate / 2; g.fft.length = io.length / 2; } return eml_audio_melspectrogram(m, f->fft, io, t); }
CALL mel_s ARGS { VARIANT(MEL_WRONG, 0); EmlVector s = {(float *)F, nin}, m = {out, nout}; return eml_audio_melspec(mel_wrong(melp, wrong), s, m); }
CALL pow_s ARGS { VARIANT(2, 0); EmlVector s = {(float *)F, nin}, m = {out, nout}; if (wrong) m.length = wrong == 1 ? 1 + NFFT : NFFT / 4 + 1; return eml_audio_power_spectrogram(s, m, wrong == 1 ? 2 * NFFT : NFFT); }
CALL hann ARGS { return eml_signal_hann_apply(out, nin); }
CALL vmean ARGS { out[0] = eml_signal_mean((float *)F, nin); return 0; }
CALL vset ARGS { VARIANT(4, 0); if (!wrong) for (int i = 0; i < nout; i++) out[i] = 0; EmlVector s = {(float *)F, nin}, d = {out, nout}; int rc = eml_vector_set(d, s, wrong == 1 ? nout - nin + 1 : wrong == 2 ? -1 : wrong == 3 ? nout : wrong == 4 ? -nin : 2); return rc < 0 ? -rc : rc; }
static const int fb_st[4] = {0, 2, 5, 9}, fb_en[4] = {3, 6, 10, 15};
CALL sparse ARGS { static const float lut[22] = {.1f, .9f, .8f, .2f, .3f, .5f, 1, .4f, .2f, .25f, .5f, .75f, 1, .6f, .1f, .2f, .3f, .4f, .5f, .6f, .7f, .8f}; return eml_sparse_filterbank(F, out, nout, fb_st, fb_en, lut); }
/* ---- quantizer ---- */
CALL qz_c ARGS { EmlQuantizer q = {250.0f}; int16_t o[8]; int u = -5, v = -5; memset(o, 0x11, sizeof o); int rc = eml_quantizer_check_forward_int16(&q, (float *)F, nin, o, nout, &u, &v); if (rc) { if (u != -5 || v != -5) out[0] = 1; return rc; } for (int i = 0; i < nout; i++) out[i] = o[i]; out[0] += 100000.0f * u; out[1] += 100000.0f * v; return 0; }
CALL qz_f ARGS { EmlQuantizer q = {250.0f}; int16_t o[8]; int rc = eml_quantizer_forward_int16(&q, (float *)F, nin, o, nout); if (rc) return rc; for (int i = 0; i < nout; i++) out[i] = o[i]; return 0; }
CALL qz_i ARGS { EmlQuantizer q = {250.0f}; return eml_quantizer_inverse_int16(&q, (int16_t *)H, nin, out, nout); }
/* ---- stateful: filter, window, CSV log ---- */
typedef struct { float st[12], co[18]; EmlIIR f; } IirInst;
static void *iir_new(void)
{
    IirInst *x = calloc(1, sizeof *x);
    static const float c[18] = {.5f, .2f, .1f, 1, -.6f, .3f, 1, .4f, .2f, 1, .5f, .4f, .7f, -.2f, .1f, 1, -.9f, .5f};
    for (int i = 0; i < 18; i++) x->co[i] = c[i];
    EmlIIR f = {3, x->st, 12, x->co, 18}; x->f = f; return x;
}
CALL iir_s ARGS { IirInst *x = self; if (eml_iir_check(x->f)) return 1; for (int i = 0; i < nin; i++) out[i] = eml_iir_filter(x->f, F[i]); return 0; }
typedef struct { EmlArray a; int16_t w[6 * 4]; } WinInst;
static void *win_new(void) { WinInst *x = calloc(1, sizeof *x); int32_t d[2] = {4, 6}; eml_array_init_full(&x->a, 2, d, 2, (uint8_t *)x->w, sizeof x->w); return x; }
CALL win_push ARGS
{
    WinInst *x = self; int32_t d[2] = {4, 2}; EmlArray c; int rc;
    if ((rc = eml_array_init_full(&c, 2, d, 2, (uint8_t *)H, 16))) return rc;
    if ((rc = eml_array_shift_rows(&x->a, -2)) || (rc = eml_array_copy_rows(&x->a, 4, &c)) || (rc = eml_array_sum(&x->a, out + 24))) return rc;
    for (int i = 0; i < 24; i++) out[i] = x->w[i];
    return 0;
}
typedef struct { char buf[6000]; size_t len, pos; EmlCsvWriter w; EmlCsvReader r; char rb[300]; char *cols[4]; int head; } CsvInst;
static int m_write(void *c, const uint8_t *b, size_t n) { CsvInst *x = c; if (x->len + n > sizeof x->buf) return -1; for (size_t i = 0; i < n; i++) x->buf[x->len++] = (char)b[i]; return (int)n; }
static int m_read(void *c, uint8_t *b, size_t n) { CsvInst *x = c; size_t i = 0; for (; i < n && x->pos < x->len; i++) b[i] = (uint8_t)x->buf[x->pos++]; return (int)i; }
static int m_seek(void *c, size_t p) { CsvInst *x = c; x->pos = p; return 0; }
static void *csv_new(void)
{
    CsvInst *x = calloc(1, sizeof *x);
    EmlCsvWriter w = {.n_columns = 4, .write = m_write, .seek = m_seek, .stream = x}; x->w = w;
    EmlCsvReader r = {.n_columns = 0, .read = m_read, .seek = m_seek, .stream = x}; x->r = r;
    return x;
}
/* appends a row and reads the next one back */
CALL csv_rt ARGS
{
    CsvInst *x = self; int rc; static const char *names[4] = {"ax", "ay", "label", "t"};
    if (!x->head) {
        if ((rc = eml_csv_writer_write_header(&x->w, names, 4))) return rc;
        if ((rc = eml_csv_reader_read_header(&x->r, x->rb, sizeof x->rb, x->cols, 4))) return 10 + rc;
        x->head = 1;
    }
    if ((rc = eml_csv_writer_write_data(&x->w, F, nin))) return 20 + rc;
    for (int i = 0; i < 300; i++) x->rb[i] = (char)0x7e;
    rc = eml_csv_reader_read_data(&x->r, x->rb, sizeof x->rb, x->cols, 4);
    out[0] = (float)rc; out[1] = (float)x->len;
    if (rc != 4) return 30;
    for (int i = 0; i < 4; i++) { unsigned h = 5381; for (char *q = x->cols[i]; *q; q++) h = h * 33 + (unsigned char)*q; out[2 + i] = (float)(h % 1000003); }
    return 0;
}

/* ---- wide shapes ---- */
CALL wtl_p ARGS { CLS(wtl_predict(H, nin)); }
CALL wtl_pp ARGS { return wtl_predict_proba(H, nin, out, nout); }
CALL wti_p ARGS { CLS(wti_predict(F, nin)); }
CALL wti_pp ARGS { return wti_predict_proba(F, nin, out, nout); }
CALL wrl_r1 ARGS { VAL(eml_trees_regress1(&wrl, H, nin)); }
static void *wnl_new(void) { return net_new(&wnl); }
CALL wni_p ARGS { CLS(wni_predict(F, nin)); }
CALL wni_i ARGS { float *a = scr, *b = a + nscr; int rc = wni_infer(F, nin, a, b, nscr); if (rc) return rc; for (int i = 0; i < 12; i++) out[i] = b[i]; return 0; }
CALL wbn_p ARGS { CLS(wbn_predict(F, nin)); }
CALL wmx_pp ARGS { return wmx_predict_proba(F, nin, out, out + 12, out + 13); }
CALL wmt_s ARGS { return wmt_score(F, nin, out, out + 4); }
CALL wel_e ARGS { float d = -1; int c = eml_elliptic_envelope_predict(&wel_classifier, F, nin, &d); if (c < 0) return -c; out[0] = c; out[1] = d; return 0; }
CALL wkn_p ARGS { int16_t o = -99; int rc = eml_neighbors_predict(&wkn, H, nin, scr, nscr, &o); if (rc) { if (o != -99) out[0] = o; return rc; } out[0] = o; return 0; }
#define WFFT 256
typedef struct { float s[WFFT / 2], c[WFFT / 2]; EmlFFT fft; } WFftInst;
static void *wfft_new(void) { WFftInst *f = malloc(sizeof *f); EmlFFT t = {WFFT / 2, f->s, f->c}; f->fft = t; eml_fft_fill(f->fft, WFFT); return f; }
static const EmlAudioMel wmelp = {30, 50.0f, 7600.0f, WFFT, 16000};
CALL wmel_sg ARGS { VARIANT(MEL_WRONG, WFFT); WFftInst *f = self; EmlVector io = {out, nin}, t = {scr, nscr}; return eml_audio_melspectrogram(mel_wrong(wmelp, wrong), f->fft, io, t); }
typedef struct { float st[32], co[48]; EmlIIR f; } WIirInst;
static void *wiir_new(void)
{
    WIirInst *x = calloc(1, sizeof *x);
    for (int i = 0; i < 8; i++) { float *c = x->co + 6 * i; c[0] = .5f + .05f * i; c[1] = .1f * (i - 4); c[2] = .2f; c[3] = 1; c[4] = .1f * i - .5f; c[5] = .3f; }
    EmlIIR f = {8, x->st, 32, x->co, 48}; x->f = f; return x;
}
CALL wiir_s ARGS { WIirInst *x = self; if (eml_iir_check(x->f)) return 1; for (int i = 0; i < nin; i++) out[i] = eml_iir_filter(x->f, F[i]); return 0; }
/* a filter of its own for each call */
CALL iir_c ARGS
{
    VARIANT(8, 0); float st[12] = {0}, co[18]; for (int i = 0; i < 18; i++) co[i] = (float[]){.4f, .3f, .1f, 1, -.2f, .3f}[i % 6];
    EmlIIR f = {3, st, 12, co, 18};
    switch (wrong) { case 1: f.n_stages = 0; break; case 2: f.n_stages = -1; break; case 3: f.states = 0; break; case 4: f.coefficients = 0; break; case 5: f.states_length = 11; break; case 6: f.coefficients_length = 12; break; case 7: f.n_stages = 4; break; case 8: f.states_length = 13; break; }
    int rc = eml_iir_check(f); if (rc) return rc;
    for (int i = 0; i < nin; i++) out[i] = eml_iir_filter(f, F[i]);
    return 0;
}
typedef struct { EmlArray a; int16_t w[20 * 12]; } WWinInst;
static void *wwin_new(void) { WWinInst *x = calloc(1, sizeof *x); int32_t d[2] = {12, 20}; eml_array_init_full(&x->a, 2, d, 2, (uint8_t *)x->w, sizeof x->w); return x; }
CALL wwin_push ARGS
{
    WWinInst *x = self; int32_t d[2] = {12, 7}; EmlArray c; int rc;
    if ((rc = eml_array_init_full(&c, 2, d, 2, (uint8_t *)H, 12 * 7 * 2))) return rc;
    if ((rc = eml_array_shift_rows(&x->a, -7)) || (rc = eml_array_copy_rows(&x->a, 13, &c)) || (rc = eml_array_sum(&x->a, out + 240))) return rc;
    for (int i = 0; i < 240; i++) out[i] = x->w[i];
    return 0;
}
CALL wqz_f ARGS { EmlQuantizer q = {31.5f}; int16_t o[100]; int rc = eml_quantizer_forward_int16(&q, (float *)F, nin, o, nout); if (rc) return rc; for (int i = 0; i < nout; i++) out[i] = o[i]; return 0; }

#define D sizeof(EmlNeighborsDistanceItem)
const UnitOp unit_ops[] = {
    /* unit  op         in  nin nout scr      checks               flags  new   call */
    {"tri", "predict",  'h', 6, 1, 0, 0, 0, 0, 0, tri_p}, {"tri", "proba", 'h', 6, 3, 0, 0, 0, 0, 0, tri_pp},
    {"rfl", "predict",  'h', 6, 1, 0, 0, IN | NULLIN, 0, 0, rfl_p}, {"rfl", "proba", 'h', 6, 3, 0, 0, IN | OUTL | NULLIN | NULLOUT, 0, 0, rfl_pp}, {"rfl", "direct", 'h', 6, 1, 0, 0, IN | NULLIN | CFG, 0, 0, rfl_e}, {"rfl", "voting", 'h', 6, 3, 0, 0, IN | OUTL | NULLIN | NULLOUT | CFG, 0, 0, rfl_q},
    {"rfp", "predict",  'h', 6, 1, 0, 0, IN | NULLIN, 0, 0, rfp_p}, {"rfp", "proba", 'h', 6, 3, 0, 0, IN | OUTL | NULLIN | NULLOUT, 0, 0, rfp_pp},
    {"eti", "predict",  'f', 5, 1, 0, 0, 0, 0, 0, eti_p}, {"eti", "proba", 'f', 5, 4, 0, 0, 0, 0, 0, eti_pp},
    {"rgl", "predict",  'h', 6, 1, 0, 0, IN, 0, 0, rgl_p}, {"rgl", "regress", 'h', 6, 1, 0, 0, IN | OUT_SHORT | CFG, 0, 0, rgl_r}, {"rgl", "regress1", 'h', 6, 1, 0, 0, IN, 0, 0, rgl_r1},
    {"rgi", "predict",  'f', 5, 1, 0, 0, 0, 0, 0, rgi_p},
    {"nb2", "predict",  'f', 4, 1, 0, 0, IN, 0, nb2_new, net_p}, {"nb2", "proba", 'f', 4, 2, 0, 0, IN | OUTL | NULLIN | NULLOUT, 0, nb2_new, net_pp},
    {"nb2", "regress",  'f', 4, 1, 0, 0, IN | OUTL | NULLOUT, 0, nb2_new, net_r}, {"nb2", "short-buffers", 'f', 4, 1, 7, 1, SCR, 0, nb2_new, net_short}, {"nb2", "incomplete", 'f', 4, 1, 0, 0, IN | OUTL | NULLOUT | CFG, 0, nb2_new, net_w},
    {"nml", "predict",  'f', 6, 1, 0, 0, IN, 0, nml_new, net_p}, {"nml", "proba", 'f', 6, 4, 0, 0, IN | OUTL | NULLIN | NULLOUT, 0, nml_new, net_pp},
    {"nml", "regress",  'f', 6, 4, 0, 0, IN | OUTL | NULLOUT, 0, nml_new, net_r}, {"nml", "short-buffers", 'f', 6, 4, 9, 1, SCR, 0, nml_new, net_short}, {"nml", "incomplete", 'f', 6, 4, 0, 0, IN | OUTL | NULLIN | NULLOUT | CFG, 0, nml_new, net_w},
    {"nrm", "regress",  'f', 4, 2, 0, 0, IN | OUTL | NULLOUT, 0, nrm_new, net_r}, {"nrm", "predict", 'f', 4, 1, 0, 0, IN, 0, nrm_new, net_p},
    {"nrl", "regress1", 'f', 4, 1, 0, 0, IN, 0, nrl_new, net_r1}, {"nrl", "regress", 'f', 4, 1, 0, 0, IN | OUTL | NULLOUT, 0, nrl_new, net_r},
    {"nb2g", "predict", 'f', 4, 1, 0, 0, IN, EXCL, 0, nb2_gp}, {"nb2g", "regress", 'f', 4, 1, 0, 0, IN | OUTL | NULLOUT, EXCL, 0, nb2_gr}, {"nb2g", "regress1", 'f', 4, 1, 0, 0, IN, EXCL, 0, nb2_g1},
    {"nmlg", "predict", 'f', 6, 1, 0, 0, IN, EXCL, 0, nml_gp}, {"nmlg", "regress", 'f', 6, 4, 0, 0, IN | OUTL | NULLOUT, EXCL, 0, nml_gr},
    {"nrmg", "regress", 'f', 4, 2, 0, 0, IN | OUTL | NULLOUT, EXCL, 0, nrm_gr}, {"nrlg", "regress1", 'f', 4, 1, 0, 0, IN, EXCL, 0, nrl_g1},
    {"nmig", "predict", 'f', 6, 1, 0, 0, IN, EXCL, 0, nmi_p}, {"nbig", "predict", 'f', 4, 1, 0, 0, IN, EXCL, 0, nbi_p},
    {"nmi", "infer",    'f', 6, 4, 8, 8, IN | SCR, 0, 0, nmi_i}, {"nbi", "infer", 'f', 4, 1, 7, 8, IN | SCR, 0, 0, nbi_i},
    {"nml", "incomplete-predict", 'f', 6, 1, 0, 0, IN | CFG, 0, nml_new, net_pw}, {"layer", "forward", 'f', 4, 7, 0, 0, IN_SHORT | OUT_SHORT | CFG, 0, 0, layer}, {"softmax", "run",  'f', 6, 6, 0, 0, NULLOUT, INPLACE, 0, softmax}, {"argmax", "run", 'f', 9, 1, 0, 0, 0, 0, 0, argmax},
    {"bay", "predict",  'f', 5, 1, 0, 0, IN | NULLIN, 0, 0, bay_p}, {"bay", "direct", 'f', 5, 1, 0, 0, IN | NULLIN | CFG, 0, 0, bay_e}, {"bay", "logpdf", 'f', 5, 5, 0, 0, 0, 0, 0, bay_h}, {"mix", "length", 'f', 4, 4, 0, 0, 0, 0, 0, mix_len},
    {"mix", "logproba", 'f', 4, 3, 0, 0, IN | NULLIN, 0, 0, mix_l}, {"mix", "model", 'f', 4, 3, 0, 0, IN | NULLIN | CFG, 0, 0, mix_w}, {"mix", "score", 'f', 4, 4, 0, 0, IN | NULLIN, 0, 0, mix_s}, {"mix", "proba", 'f', 4, 7, 0, 0, IN | NULLIN, 0, 0, mix_pp},
    {"ell", "predict",  'f', 4, 1, 0, 0, IN, 0, 0, ell_p}, {"ell", "direct", 'f', 4, 2, 0, 0, IN, 0, 0, ell_e},
    {"knn", "predict",  'h', 4, 1, 24, D, IN | SCR | CFG, 0, 0, knn_p},
    {"knl", "add",      'h', 4, 0, 0, 0, IN, STATE | MAYFAIL, knl_new, knl_add}, {"knl", "predict", 'h', 4, 82, 0, 0, IN, STATE | MAYFAIL, knl_new, knl_p},
    {"fft", "forward",  'f', NFFT, NFFT, 4 * NFFT, 4, IN | CFG, INPLACE, fft_new, fft_f}, {"fft", "complex", 'f', NFFT, 2 * NFFT, NFFT, 4, 0, 0, fft_new, fft_fc}, {"fft", "fill", 'f', NFFT, NFFT, 0, 0, CFG, 0, 0, fft_t},
    {"mel", "melspectrogram", 'f', NFFT, NFFT, NFFT, 4, IN | SCR | CFG, INPLACE, fft_new, mel_sg}, {"mel", "melspec", 'f', NFFT / 2 + 1, 5, 0, 0, IN_SHORT | OUTL | CFG, 0, 0, mel_s},
    {"mel", "power",    'f', NFFT, NFFT / 2 + 1, 0, 0, OUTL | CFG, 0, 0, pow_s}, {"hann", "apply", 'f', NFFT, NFFT, 0, 0, 0, INPLACE, 0, hann}, {"vec", "mean", 'f', 11, 1, 0, 0, 0, 0, 0, vmean}, {"vec", "set", 'f', 6, 9, 0, 0, CFG, 0, 0, vset},
    {"sparse", "run",   'f', 16, 4, 0, 0, 0, 0, 0, sparse},
    {"qz", "check",     'f', 8, 8, 0, 0, IN | OUT_SHORT, 0, 0, qz_c}, {"qz", "forward", 'f', 8, 8, 0, 0, IN | OUT_SHORT, 0, 0, qz_f}, {"qz", "inverse", 'h', 8, 8, 0, 0, IN | OUTL, 0, 0, qz_i},
    {"iir", "feed",     'f', 5, 5, 0, 0, 0, STATE, iir_new, iir_s}, {"win", "push", 'h', 8, 25, 0, 0, 0, STATE, win_new, win_push},
    {"csv", "roundtrip", 'f', 4, 6, 0, 0, 0, STATE | MAYFAIL, csv_new, csv_rt},
    {"wtl", "predict",  'h', 20, 1, 0, 0, IN | NULLIN, 0, 0, wtl_p}, {"wtl", "proba", 'h', 20, 25, 0, 0, IN | OUTL | NULLIN | NULLOUT, 0, 0, wtl_pp},
    {"wti", "predict",  'f', 12, 1, 0, 0, 0, 0, 0, wti_p}, {"wti", "proba", 'f', 12, 28, 0, 0, 0, 0, 0, wti_pp}, {"wrl", "regress1", 'h', 20, 1, 0, 0, IN, 0, 0, wrl_r1},
    {"wnl", "predict",  'f', 40, 1, 0, 0, IN, 0, wnl_new, net_p}, {"wnl", "proba", 'f', 40, 12, 0, 0, IN | OUTL | NULLIN | NULLOUT, 0, wnl_new, net_pp},
    {"wnl", "regress",  'f', 40, 12, 0, 0, IN | OUTL | NULLOUT, 0, wnl_new, net_r}, {"wnl", "short-buffers", 'f', 40, 12, 40, 1, SCR, 0, wnl_new, net_short},
    {"wnig", "predict", 'f', 40, 1, 0, 0, IN, EXCL, 0, wni_p}, {"wni", "infer", 'f', 40, 12, 40, 8, IN | SCR, 0, 0, wni_i},
    {"softmaxw", "run", 'f', 40, 40, 0, 0, 0, INPLACE, 0, softmax}, {"argmaxw", "run", 'f', 70, 1, 0, 0, 0, 0, 0, argmax},
    {"wbn", "predict",  'f', 12, 1, 0, 0, IN | NULLIN, 0, 0, wbn_p}, {"wmx", "proba", 'f', 9, 25, 0, 0, IN | NULLIN, 0, 0, wmx_pp}, {"wmt", "score", 'f', 6, 5, 0, 0, IN | NULLIN, 0, 0, wmt_s},
    {"wel", "direct",   'f', 12, 2, 0, 0, IN, 0, 0, wel_e}, {"wkn", "predict", 'h', 9, 1, 60, D, IN | SCR, 0, 0, wkn_p},
    {"wmel", "melspectrogram", 'f', WFFT, WFFT, WFFT, 4, IN | SCR | CFG, INPLACE, wfft_new, wmel_sg}, {"hannw", "apply", 'f', 200, 200, 0, 0, 0, INPLACE, 0, hann}, {"vecw", "mean", 'f', 400, 1, 0, 0, 0, 0, 0, vmean},
    {"wiir", "feed",    'f', 9, 9, 0, 0, 0, STATE, wiir_new, wiir_s}, {"iirc", "run",     'f', 12, 12, 0, 0, CFG, 0, 0, iir_c}, {"wwin", "push", 'h', 84, 241, 0, 0, 0, STATE, wwin_new, wwin_push}, {"wqz", "forward", 'f', 100, 100, 0, 0, IN | OUT_SHORT, 0, 0, wqz_f},
};
const int unit_ops_n = sizeof unit_ops / sizeof unit_ops[0];
void unit_redirty(const UnitOp *op, void *self) { if (self && (op->create == nb2_new || op->create == nml_new || op->create == nrm_new || op->create == nrl_new || op->create == wnl_new)) net_dirty(self); }
