#pragma once
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct UnitOp {
    const char *unit, *name;
    char type;              /* input: 'f' float, 'h' int16 */
    int n_in, n_out;
    int n_scr, scr_unit;    /* scratch: items and bytes per item */
    unsigned checks;        /* what the function has to reject */
    unsigned flags;
    void *(*create)(void);  /* instance with private working memory, or 0 */
    int (*call)(void *self, const void *in, int nin, float *out, int nout, void *scr, int nscr); /* 0 or error */
} UnitOp;
enum { IN_SHORT = 1, IN_LONG = 2, IN = 3, OUT_SHORT = 4, OUT_LONG = 8, OUTL = 12, SCR = 16, NULLIN = 32, NULLOUT = 64, CFG = 128 /* configurations that can not work: the call gets nscr = -1, -2, ... (variant) */ };
enum { EXCL = 1 /* one generated object with its own buffers: one task at a time */, STATE = 2 /* results depend on the instance's history by design */, INPLACE = 4 /* out holds the input */, MAYFAIL = 8 };
extern const UnitOp unit_ops[];
extern const int unit_ops_n;
void unit_dirty(void *p, size_t n);   /* provided by the simulator: fills fresh or reused working memory */
void unit_redirty(const UnitOp *op, void *self);
#ifdef __cplusplus
}
#endif
