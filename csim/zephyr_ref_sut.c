/* The preprocessing of the application on its own, for a process that did nothing else. */
#include "zsim.h"
#include "motion_preprocessing.h"
#include "motion_gravity_lowpass.h"
int zm_features(const float *chunks, int n, int rate, int length, float *out, int max)
{
    struct motion_preprocessor *m = malloc(sizeof *m); int rc;
    memset(m, 0x5a, sizeof *m);
    if ((rc = motion_preprocessor_init(m, rate, length / 6))) return -100 + rc;
    if ((rc = motion_preprocessor_set_gravity_lowpass(m, gravity_lowpass_values, gravity_lowpass_length))) return -200 + rc;
    if ((rc = motion_preprocessor_set_fft_features(m, 1, 10))) return -300 + rc;
    int k = motion_preprocessor_get_feature_length(m);
    for (int i = 0; i < n; i++) {
        if ((rc = motion_preprocessor_run(m, chunks + (size_t)i * length, length))) return -400 + rc;
        if ((rc = motion_preprocessor_get_features(m, out + (size_t)i * max, max))) return -500 + rc;
    }
    return k;
}
