/* the library called from C on the data the Python call was given (reference for qpv/pyconc.py) */
#include "qpSWIFT.h"
long ref(long n, long m, long p, double *P, double *A, double *G, double *c, double *h, double *b, long maxit, double abstol, double reltol, double sigma, double *x, double *y, double *z, double *s, double *st)
{
    QP *q = QP_SETUP_dense(n, m, p, P, A, G, c, h, b, 0, ROW_MAJOR_ORDERING);
    q->options->maxit = maxit;
    q->options->abstol = abstol;
    q->options->reltol = reltol;
    q->options->sigma = sigma;
    q->options->verbose = 0;
    long r = QP_SOLVE(q);
    for (long i = 0; i < n; i++) x[i] = q->x[i];
    for (long i = 0; i < p; i++) y[i] = q->y[i];
    for (long i = 0; i < m; i++) z[i] = q->z[i], s[i] = q->s[i];
    st[0] = q->stats->IterationCount;
    st[1] = q->stats->fval;
    QP_CLEANUP_dense(q);
    return r;
}
