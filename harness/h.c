/* Concrete oracle harness: runs the real library on generated problems and checks one property.
   usage: h PROP SEED FROM TO   -> prints "FAIL <prop> case=<k> <what>" for the first failing case and exits 3
   Cases are a pure function of (PROP, SEED, k). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <math.h>
#include <float.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include "qpSWIFT.h"
#include "amd.h"

typedef long L;
static const char *PROP; static L CASE; static unsigned long SEED;
static int OUTFD;
static void fail(const char *prop, const char *fmt, ...)
{
	va_list ap; char b[600];
	if (strcmp(prop, PROP)) return;
	va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	dprintf(OUTFD, "FAIL %s case=%ld %s\n", prop, CASE, b);
	_exit(3);
}
static void on_alarm(int s) { (void)s; const char *m = "FAIL timeout\n"; if (write(OUTFD, m, strlen(m))) {} _exit(4); }

/* ---------------------------------------------------------------- allocator bookkeeping */
static struct blk { void *p; size_t n; int live; } *T; static L NT, CT; static L live_blocks;
static void *reg(void *p, size_t n)
{
	if (!p) return p;
	for (L i = 0; i < NT; i++) if (T[i].p == p) { T[i].live = 1; T[i].n = n; live_blocks++; return p; }
	if (NT == CT) { CT = CT ? 2 * CT : 1024; T = realloc(T, CT * sizeof *T); }
	T[NT].p = p; T[NT].n = n; T[NT++].live = 1; live_blocks++;
	return p;
}
/* fresh blocks are filled with bytes that differ from call to call, so that a result read from them differs too */
static unsigned salt;
static void poison(void *p, size_t n) { unsigned char *c = p; salt += 11; for (size_t i = 0; i < n; i++) c[i] = (unsigned char)(0xA7 + 31 * (i & 7) + (salt & 15)); }
void *qpv_malloc(size_t n) { void *p = malloc(n ? n : 1); if (p) poison(p, n); 
#ifdef __SANITIZE_ADDRESS__
	if (!n) { free(p); p = malloc(0); }
#endif
	return reg(p, n); }
void *qpv_calloc(size_t a, size_t b) { void *p = calloc(a, b); return reg(p, a * b); }
static struct blk *findb(void *p) { for (L i = 0; i < NT; i++) if (T[i].p == p) return &T[i]; return 0; }
void qpv_free(void *p)
{
	if (!p) return;
	struct blk *b = findb(p);
	if (!b) { fail("C10", "free of a block the library did not allocate"); fail("C12", "free of a block the library did not allocate"); return; }
	if (!b->live) { fail("C10", "block released twice"); fail("C12", "block released twice"); return; }
	b->live = 0; live_blocks--; free(p);
	*b = T[--NT];
}
void *qpv_realloc(void *p, size_t n) { struct blk *b = p ? findb(p) : 0; if (b) { live_blocks--; *b = T[--NT]; } void *q = realloc(p, n); return reg(q, n); }
static void *failing_malloc(size_t n) { (void)n; return 0; }

/* ---------------------------------------------------------------- random numbers */
static unsigned long rs;
static unsigned long rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717UL >> 11; }
static L ri(L a, L b) { return a + (L)(rnd() % (unsigned long)(b - a + 1)); }
static double ru(void) { return (double)(rnd() % 2000001) / 1e6 - 1.0; }
static int chance(int pc) { return (L)(rnd() % 100) < pc; }
static double rnice(void) { double v; do v = (double)ri(-8, 8) / 2; while (v == 0); return v; }

static int NANOK;   /* whether the problems may hold NaN and infinities */
/* ---------------------------------------------------------------- problems */
typedef struct { L m, n, nnz; L *jc, *ir; double *pr; double *d; /* dense, column major */ } M;
static void *xm(size_t n) { return malloc(n); }   /* exact sizes, so that ASan sees the first element past the end */
static M mk(L m, L n, double *d, int shuffle, int keepzero)
{
	M a; L k = 0; a.m = m; a.n = n; a.d = d; a.jc = xm((n + 1) * sizeof(L));
	char *st = calloc(m * n + 1, 1);
	for (L q = 0; q < m * n; q++) { st[q] = (d[q] != 0) || (keepzero && chance(15)); k += st[q]; }
	a.nnz = k; a.ir = xm(k * sizeof(L)); a.pr = xm(k * sizeof(double)); k = 0;
	for (L j = 0; j < n; j++) {
		a.jc[j] = k;
		for (L i = 0; i < m; i++) if (st[j * m + i]) { a.ir[k] = i; a.pr[k] = d[j * m + i]; k++; }
		if (shuffle) for (L t = k - 1; t > a.jc[j]; t--) { L u = ri(a.jc[j], t); L x = a.ir[t]; a.ir[t] = a.ir[u]; a.ir[u] = x; double y = a.pr[t]; a.pr[t] = a.pr[u]; a.pr[u] = y; }
	}
	a.jc[n] = k; free(st);
	return a;
}
static void fm(M *a) { free(a->jc); free(a->ir); free(a->pr); free(a->d); }
typedef struct {
	L n, m, p; M P, G, A; double *c, *h, *b; L *perm; double sigma_d; int dense; int ordering; int nice; int drop; double *Pd, *Gd, *Ad;
	int feasible;
} Q;
/* drop: 0 none, 1 b NULL, 2 Apr NULL, 3 Ajc NULL, 4 Air NULL, 5 p=0 with data given */
static void gen(Q *q)
{
	int small = chance(40);
	memset(q, 0, sizeof *q);
	int larger = chance(3); q->n = ri(1, small ? 3 : larger ? 25 : 7); q->m = ri(1, small ? 3 : larger ? 40 : 9); q->p = chance(35) ? 0 : ri(1, q->n > 1 ? (q->n > 3 ? 3 : q->n - 1) : 1);
	if (q->n == 1 && q->p) q->p = chance(30);
	L n = q->n, m = q->m, p = q->p;
	q->nice = chance(70); q->feasible = 1;
	if (NANOK && chance(4)) { q->p = p = n + ri(1, 3); q->nice = 0; }   /* more equality constraints than variables */
	double *P = calloc(n * n + 1, 8), *G = calloc(m * n + 1, 8), *A = calloc(p * n + 1, 8);
	int pk = q->nice ? 0 : (int)ri(0, 4);
	if (pk == 1) { for (L i = 0; i < n; i++) if (chance(50)) P[i * n + i] = 1 + ru() * 0.5; }
	else if (pk == 2) ;
	else {
		L r = pk == 3 ? 1 : n; int den = ri(20, 100);
		double *B = calloc(n * r, 8);
		for (L i = 0; i < n * r; i++) if (chance(den)) B[i] = chance(30) ? rnice() : ru();
		for (L i = 0; i < n; i++) for (L j = 0; j < n; j++) for (L k = 0; k < r; k++) P[j * n + i] += B[k * n + i] * B[k * n + j];
		if (pk == 0) for (L i = 0; i < n; i++) P[i * n + i] += 0.5 + fabs(ru());
		free(B);
	}
	int gd = ri(15, 100);
	for (L i = 0; i < m * n; i++) if (chance(gd)) G[i] = chance(30) ? rnice() : ru();
	if (chance(20)) { L r = ri(0, m - 1); for (L j = 0; j < n; j++) G[j * m + r] = 0; }
	if (chance(15)) { L j = ri(0, n - 1); for (L r = 0; r < m; r++) G[j * m + r] = 0; }
	for (L i = 0; i < p; i++) { for (L j = 0; j < n; j++) if (chance(60)) A[j * p + i] = ru(); if (i < n && (q->nice || chance(80))) A[i * p + i] += (A[i * p + i] < 0 ? -2 : 2); }
	if (!q->nice && p && chance(15)) for (L j = 0; j < n; j++) A[j * p] = 0;
	double *x0 = calloc(n, 8); for (L i = 0; i < n; i++) x0[i] = 2 * ru();
	q->c = xm(n * 8); q->h = xm(m * 8); q->b = xm((p ? p : 1) * 8);
	for (L i = 0; i < n; i++) q->c[i] = 3 * ru();
	double tight = chance(30) ? 0.0 : 1.0;
	for (L i = 0; i < m; i++) { double s = 0; for (L j = 0; j < n; j++) s += G[j * m + i] * x0[j]; q->h[i] = s + tight * (0.1 + fabs(ru())); if (chance(10)) q->h[i] += 1000; }
	if (p == 0) q->b[0] = ru();
	for (L i = 0; i < p; i++) { double s = 0; for (L j = 0; j < n; j++) s += A[j * p + i] * x0[j]; q->b[i] = s; }
	if (!q->nice && chance(30)) { q->h[ri(0, m - 1)] -= 50; q->feasible = 0; }
	if (!q->nice && chance(10)) { for (L i = 0; i < n; i++) q->c[i] *= 1e5; }
	if (!q->nice && chance(10) && m > 0) { q->h[0] = 1e7; }
	if (chance(12) && !q->nice && NANOK) { double *v = chance(34) ? q->c : chance(50) ? q->h : q->b; v[0] = chance(50) ? NAN : chance(50) ? INFINITY : 1e300; q->feasible = 0; }
	free(x0);
	q->dense = chance(35); q->ordering = chance(50) ? ROW_MAJOR_ORDERING : COLUMN_MAJOR_ORDERING;
	int sh = chance(30), kz = chance(20);
	if (q->dense) sh = kz = 0;
	q->P = mk(n, n, P, sh, kz); q->G = mk(m, n, G, sh, kz); q->A = mk(p, n, A, sh, kz);
	if (chance(40)) { L N = n + m + p; q->perm = xm(N * sizeof(L)); for (L i = 0; i < N; i++) q->perm[i] = i; if (chance(85)) for (L i = N - 1; i > 0; i--) { L u = ri(0, i), t = q->perm[i]; q->perm[i] = q->perm[u]; q->perm[u] = t; } }
	q->sigma_d = chance(75) ? 0.0 : (chance(50) ? 0.3 : 150.0);
	q->drop = chance(12) ? (int)ri(1, 5) : 0;
	if (q->drop && !p) q->drop = 5;
	if (q->perm && q->drop && p) { free(q->perm); q->perm = 0; }
	for (int t = 0; t < 3; t++) {
		M *a = t == 0 ? &q->P : t == 1 ? &q->G : &q->A; double *d = xm(a->m * a->n * 8);
		for (L i = 0; i < a->m; i++) for (L j = 0; j < a->n; j++) d[q->ordering == ROW_MAJOR_ORDERING ? i * a->n + j : j * a->m + i] = a->d[j * a->m + i];
		if (t == 0) q->Pd = d; else if (t == 1) q->Gd = d; else q->Ad = d;
	}
}
static void fq(Q *q) { fm(&q->P); fm(&q->G); fm(&q->A); free(q->c); free(q->h); free(q->b); free(q->perm); free(q->Pd); free(q->Gd); free(q->Ad); }
/* effective equality count (what the library must keep) */
static L effp(Q *q)
{
	if (q->p == 0) return 0;
	if (q->dense) return (q->drop == 1 || q->drop == 2 || q->drop == 5) ? 0 : q->p;
	return q->drop ? 0 : q->p;
}
static QP *setup(Q *q)
{
	int d = q->drop; L p = d == 5 ? 0 : q->p;
	if (q->dense) return QP_SETUP_dense(q->n, q->m, p, q->Pd, (q->p == 0 && d != 5) || d == 2 ? NULL : q->Ad, q->Gd, q->c, q->h, (q->p == 0 && d != 5) || d == 1 ? NULL : q->b, q->perm, q->ordering);
	int no = q->p == 0 && d != 5;
	return QP_SETUP(q->n, q->m, p, q->P.jc, q->P.ir, q->P.pr, no || d == 3 ? NULL : q->A.jc, no || d == 4 ? NULL : q->A.ir, no || d == 2 ? NULL : q->A.pr,
		q->G.jc, q->G.ir, q->G.pr, q->c, q->h, no || d == 1 ? NULL : q->b, q->sigma_d, q->perm);
}
static void cleanup(Q *q, QP *s) { if (q->dense) QP_CLEANUP_dense(s); else QP_CLEANUP(s); }
static double PV(Q *q, L i, L j) { return q->P.d[j * q->n + i]; }
static double GV(Q *q, L i, L j) { return q->G.d[j * q->m + i]; }
static double AVv(Q *q, L i, L j) { return q->A.d[j * q->p + i]; }

/* ---------------------------------------------------------------- oracles on the instance */
static void cmp_smat(const char *prop, const char *nm, smat *a, L m, L n, double *d, int tr, int sorted, L nnz)
{
	/* a must hold exactly d (m x n column major; transposed when tr) */
	L R = tr ? n : m, C = tr ? m : n;
	if (!a) { fail(prop, "%s missing", nm); return; }
	if (a->m != R || a->n != C) fail(prop, "%s has dimensions %ldx%ld instead of %ldx%ld", nm, a->m, a->n, R, C);
	if (a->nnz != nnz || a->jc[C] != nnz || a->jc[0] != 0) fail(prop, "%s: entry count %ld / jc[0]=%ld / jc[n]=%ld instead of %ld", nm, a->nnz, a->jc[0], a->jc[C], nnz);
	double *w = calloc(R * C + 1, 8); char *seen = calloc(R * C + 1, 1);
	for (L j = 0; j < C; j++) {
		if (a->jc[j] > a->jc[j + 1]) fail(prop, "%s: column pointers decrease at %ld", nm, j);
		for (L k = a->jc[j]; k < a->jc[j + 1]; k++) {
			L i = a->ir[k];
			if (i < 0 || i >= R) fail(prop, "%s: row index %ld out of range", nm, i);
			if (sorted && k > a->jc[j] && a->ir[k - 1] >= i) fail(prop, "%s: column %ld is not in increasing row order", nm, j);
			if (seen[j * R + i]) fail(prop, "%s: entry (%ld,%ld) stored twice", nm, i, j);
			seen[j * R + i] = 1; w[j * R + i] = a->pr[k];
		}
	}
	for (L j = 0; j < C; j++) for (L i = 0; i < R; i++) {
		double e = tr ? d[i * m + j] : d[j * m + i];
		if (!(w[j * R + i] == e) && !(isnan(e) && isnan(w[j * R + i]))) fail(prop, "%s: entry (%ld,%ld) is %g instead of %g", nm, i, j, w[j * R + i], e);
	}
	free(w); free(seen);
}
/* dense KKT with the scaling block -W, W given (m) */
static double *dkkt(Q *q, L p, const double *W)
{
	L n = q->n, m = q->m, N = n + m + p; double *K = calloc(N * N, 8);
	for (L j = 0; j < n; j++) {
		for (L i = 0; i < n; i++) K[j * N + i] = PV(q, i, j);
		for (L i = 0; i < p; i++) K[j * N + n + i] = K[(n + i) * N + j] = AVv(q, i, j);
		for (L i = 0; i < m; i++) K[j * N + n + p + i] = K[(n + p + i) * N + j] = GV(q, i, j);
	}
	for (L i = 0; i < m; i++) K[(n + p + i) * N + n + p + i] = -(W ? W[i] : 1.0);
	return K;
}
static void check_kkt(const char *prop, Q *q, QP *s, L p, const double *W, double tol)
{
	L n = q->n, m = q->m, N = n + m + p; smat *k = s->kkt->kktmatrix;
	L nnz = q->P.nnz + 2 * q->G.nnz + m + (p ? 2 * q->A.nnz : 0);
	if (k->n != N || k->m != N) { fail(prop, "KKT dimension %ld instead of %ld", k->n, N); return; }
	if (k->jc[0] != 0 || k->jc[N] != nnz || k->nnz != nnz) { fail(prop, "KKT entry count %ld/%ld instead of %ld", k->jc[N], k->nnz, nnz); return; }
	double *K = dkkt(q, p, W), *w = calloc(N * N, 8); char *seen = calloc(N * N, 1);
	for (L j = 0; j < N; j++) {
		if (k->jc[j] > k->jc[j + 1] || k->jc[j + 1] > nnz || k->jc[j] < 0) { fail(prop, "KKT column pointers wrong at %ld", j); return; }
		for (L e = k->jc[j]; e < k->jc[j + 1]; e++) {
			L i = k->ir[e];
			if (i < 0 || i >= N) { fail(prop, "KKT row index %ld out of range", i); return; }
			if (seen[j * N + i]) fail(prop, "KKT entry (%ld,%ld) stored twice", i, j);
			seen[j * N + i] = 1; w[j * N + i] = k->pr[e];
		}
		if (j >= n + p && (k->jc[j + 1] == k->jc[j] || k->ir[k->jc[j + 1] - 1] != j)) fail(prop, "KKT column %ld does not end in its diagonal entry", j);
	}
	for (L j = 0; j < N; j++) for (L i = 0; i < N; i++) if (!(fabs(w[j * N + i] - K[j * N + i]) <= tol * fabs(K[j * N + i])))
		fail(prop, "KKT entry (%ld,%ld) is %g instead of %g", i, j, w[j * N + i], K[j * N + i]);
	free(K); free(w); free(seen);
}
static int check_factor(QP *s, int final)
{
	/* L D L' = permuted KKT, up to rounding and up to regularised pivots; pattern facts exactly */
	kkt *k = s->kkt; L N = k->kktmatrix->n; int reg = 0;
	double *W = calloc(N * N, 8), *Ld = calloc(N * N, 8), *B = calloc(N * N, 8);
	if (k->Lp[0] != 0) fail("C07", "Lp[0] is not 0");
	for (L j = 0; j < N; j++) {
		Ld[j * N + j] = 1;
		if (k->Lp[j] > k->Lp[j + 1]) { fail("C07", "Lp decreases"); return 1; }
		for (L e = k->Lp[j]; e < k->Lp[j + 1]; e++) {
			L i = k->Li[e];
			if (i <= j || i >= N) { fail("C07", "L entry (%ld,%ld) is not strictly below the diagonal", i, j); return 1; }
			if (Ld[j * N + i] != 0) fail("C07", "L entry (%ld,%ld) stored twice", i, j);
			Ld[j * N + i] = k->Lx[e];
		}
	}
	for (L i = 0; i < N; i++) { if (k->D[i] == 0 || isnan(k->D[i])) { if (!isnan(k->D[i])) fail("C08", "pivot %ld is zero", i); reg = 1; } if (fabs(k->D[i]) <= 1.0000001e-7) reg = 1; }
	for (L j = 0; j < N; j++) for (L e = k->kktmatrix->jc[j]; e < k->kktmatrix->jc[j + 1]; e++) W[k->Pinv[j] * N + k->Pinv[k->kktmatrix->ir[e]]] += k->kktmatrix->pr[e];
	for (L j = 0; j < N; j++) for (L i = j; i < N; i++) {
		double v = 0, a = 0;
		for (L t = 0; t <= j; t++) { double u = Ld[t * N + i] * k->D[t] * Ld[t * N + j]; v += u; a += fabs(u); }
		B[j * N + i] = a;
		double e = W[j * N + i];
		if (i == j) {
			double pre = e - (v - k->D[j]);   /* the pivot before regularisation */
			double err = 1e-10 * (a + fabs(e));
			if (!(a < 1e12)) continue;
			if (fabs(k->D[j]) < 0.99e-14 || (k->D[j] != k->D[j])) { if (k->D[j] == k->D[j]) fail("C08", "pivot %ld is %g", j, k->D[j]); }
			else if (fabs(fabs(k->D[j]) - 1e-7) <= 1e-16) {
				/* regularised, or an honest pivot of about 1e-7 */
				if (fabs(pre) > 1.1e-14 + err && fabs(pre - k->D[j]) > err) fail("C08", "pivot %ld: %g was replaced by %g", j, pre, k->D[j]);
				if (err == 0 && pre == 0 && k->D[j] > 0) fail("C08", "zero pivot %ld became positive", j);
			} else if (!(fabs(pre - k->D[j]) <= err)) { fail("C08", "pivot %ld: %g was replaced by %g", j, pre, k->D[j]); if (!reg) fail("C07", "diagonal %ld of LDL' differs: %g instead of %g", j, v, e); }
		} else if (a < 1e12 && !(fabs(v - e) <= 1e-9 * (a + fabs(e)) + 1e-100)) fail("C07", "LDL' entry (%ld,%ld) is %g instead of %g", i, j, v, e);
	}
	(void)final;
	free(W); free(Ld); free(B);
	return reg;
}
static void check_lt(QP *s)
{
	kkt *k = s->kkt; L N = k->kktmatrix->n, q = 0;
	for (L r = 0; r < N; r++) {
		if (k->Ltp[r] != q) { fail("C05", "Ltp[%ld] is %ld instead of %ld", r, k->Ltp[r], q); return; }
		for (L j = 0; j < N; j++) for (L e = k->Lp[j]; e < k->Lp[j + 1]; e++) if (k->Li[e] == r) { if (k->Lti[q] != j) { fail("C05", "Lti[%ld] is %ld instead of %ld", q, k->Lti[q], j); return; } q++; }
	}
	if (k->Ltp[N] != q) fail("C05", "Ltp[n] is %ld instead of %ld", k->Ltp[N], q);
}
static void check_perm(Q *q, QP *s, L p)
{
	L N = q->n + q->m + p; char *seen = calloc(N + 1, 1);
	for (L i = 0; i < N; i++) {
		L v = s->kkt->P[i];
		if (v < 0 || v >= N || seen[v]) { fail("C09", "the ordering is not a permutation (position %ld holds %ld)", i, v); free(seen); return; }
		seen[v] = 1;
		if (s->kkt->Pinv[v] != i) fail("C09", "Pinv[P[%ld]] is %ld", i, s->kkt->Pinv[v]);
		if (q->perm && v != q->perm[i]) fail("C09", "the caller's ordering is not used");
	}
	if (q->perm && s->stats->AMD_RESULT != -3) fail("C09", "AMD_RESULT is %ld for a caller-supplied ordering", s->stats->AMD_RESULT);
	if (!q->perm && s->stats->AMD_RESULT == -3) fail("C09", "AMD_RESULT is -3 without a caller-supplied ordering");
	free(seen);
}
/* dense solve with partial pivoting in long double; returns 0 when ill-conditioned */
static int dsolve(L N, double *K, double *b)
{
	long double *A = calloc(N * N, sizeof *A), *r = calloc(N, sizeof *r); int ok = 1;
	for (L i = 0; i < N; i++) { r[i] = b[i]; for (L j = 0; j < N; j++) A[i * N + j] = K[j * N + i]; }
	for (L k = 0; k < N && ok; k++) {
		L pv = k; for (L i = k + 1; i < N; i++) if (fabsl(A[i * N + k]) > fabsl(A[pv * N + k])) pv = i;
		if (fabsl(A[pv * N + k]) < 1e-4) { ok = 0; break; }
		for (L j = 0; j < N; j++) { long double t = A[k * N + j]; A[k * N + j] = A[pv * N + j]; A[pv * N + j] = t; }
		long double t = r[k]; r[k] = r[pv]; r[pv] = t;
		for (L i = k + 1; i < N; i++) { long double f = A[i * N + k] / A[k * N + k]; if (f != 0) { for (L j = k; j < N; j++) A[i * N + j] -= f * A[k * N + j]; r[i] -= f * r[k]; } }
	}
	if (ok) for (L k = N - 1; k >= 0; k--) { for (L j = k + 1; j < N; j++) r[k] -= A[k * N + j] * r[j]; r[k] /= A[k * N + k]; }
	for (L i = 0; i < N; i++) b[i] = (double)r[i];
	free(A); free(r);
	return ok;
}
static int pivots_ok(QP *s) { L N = s->kkt->kktmatrix->n; for (L i = 0; i < N; i++) if (!(fabs(s->kkt->D[i]) > 1e-3) || !(fabs(s->kkt->D[i]) < 1e5)) return 0; return 1; }
static double nrm(double *v, L n) { double s = 0, b = 1; for (L i = 0; i < n; i++) if (fabs(v[i]) > 1e100 && isfinite(v[i])) b = 1e200; for (L i = 0; i < n; i++) s += (v[i] / b) * (v[i] / b); return b * sqrt(s); }
static void resid(Q *q, L p, double *x, double *y, double *s, double *z, double *rx, double *ry, double *rz, double *scale)
{
	L n = q->n, m = q->m; double sc = 1;
	for (L i = 0; i < n; i++) { double v = q->c[i], a = fabs(v); for (L j = 0; j < n; j++) { v += PV(q, i, j) * x[j]; a += fabs(PV(q, i, j) * x[j]); } for (L j = 0; j < m; j++) { v += GV(q, j, i) * z[j]; a += fabs(GV(q, j, i) * z[j]); } for (L j = 0; j < p; j++) { v += AVv(q, j, i) * y[j]; a += fabs(AVv(q, j, i) * y[j]); } rx[i] = -v; if (a > sc) sc = a; }
	for (L i = 0; i < p; i++) { double v = -q->b[i], a = fabs(v); for (L j = 0; j < n; j++) { v += AVv(q, i, j) * x[j]; a += fabs(AVv(q, i, j) * x[j]); } ry[i] = -v; if (a > sc) sc = a; }
	for (L i = 0; i < m; i++) { double v = s[i] - q->h[i], a = fabs(s[i]) + fabs(q->h[i]); for (L j = 0; j < n; j++) { v += GV(q, i, j) * x[j]; a += fabs(GV(q, i, j) * x[j]); } rz[i] = -v; if (a > sc) sc = a; }
	*scale = sc;
}
static void check_setup(Q *q, QP *s)
{
	L n = q->n, m = q->m, p = effp(q), N = n + m + p;
	if (s->n != n || s->m != m || s->p != p) fail("C15", "stored dimensions n=%ld m=%ld p=%ld instead of %ld %ld %ld", s->n, s->m, s->p, n, m, p);
	if (s->p != p) return;
	if (!p && (s->A || s->b)) fail("C15", "equality data kept although it was not given");
	if (s->options->maxit != 100 || s->options->reltol != 1e-6 || s->options->abstol != 1e-6 || s->options->sigma != 100 || s->options->verbose != 0) fail("C15", "default settings differ");
	if (s->sigma_d != (q->dense ? 0.0 : q->sigma_d)) fail("C15", "sigma_d is %g", s->sigma_d);
	if (s->stats->Flag != QP_FATAL && s->stats->Flag != QP_KKTFAIL) fail("C15", "status %ld after set-up", s->stats->Flag);
	if (s->stats->Flag == QP_KKTFAIL) fail("C08", "set-up reports a failed factorisation");
	if (s->stats->IterationCount != 0) fail("C15", "iteration count %ld after set-up", s->stats->IterationCount);
	if (memcmp(s->c, q->c, n * 8) || memcmp(s->h, q->h, m * 8) || (p && memcmp(s->b, q->b, p * 8))) fail("C15", "stored c, h or b differs");
	const char *c6 = q->dense ? "C06" : "C15"; int so = q->dense;
	cmp_smat(c6, "P", s->P, n, n, q->P.d, 0, so, q->P.nnz); cmp_smat(c6, "G", s->G, m, n, q->G.d, 0, so, q->G.nnz); if (p) cmp_smat(c6, "A", s->A, p, n, q->A.d, 0, so, q->A.nnz);
	if (q->dense) { cmp_smat("C15", "P", s->P, n, n, q->P.d, 0, so, q->P.nnz); cmp_smat("C15", "G", s->G, m, n, q->G.d, 0, so, q->G.nnz); if (p) cmp_smat("C15", "A", s->A, p, n, q->A.d, 0, so, q->A.nnz); }
	cmp_smat("C05", "G'", s->Gt, m, n, q->G.d, 1, 1, q->G.nnz); if (p) cmp_smat("C05", "A'", s->At, p, n, q->A.d, 1, 1, q->A.nnz);
	cmp_smat("C15", "G'", s->Gt, m, n, q->G.d, 1, 1, q->G.nnz); if (p) cmp_smat("C15", "A'", s->At, p, n, q->A.d, 1, 1, q->A.nnz);
	check_kkt("C04", q, s, p, NULL, 0);
	check_perm(q, s, p);
	int rg = check_factor(s, 0);
	check_lt(s);
	/* starting point */
	double *zi = calloc(m, 8), mn = INFINITY, mx = -INFINITY, sc = 1;
	int nan = 0;
	for (L i = 0; i < m; i++) { double v = q->h[i], a = fabs(v); for (L j = 0; j < n; j++) { v -= GV(q, i, j) * s->x[j]; a += fabs(GV(q, i, j) * s->x[j]); } zi[i] = v; if (v < mn) mn = v; if (v > mx) mx = v; if (a > sc) sc = a; if (!(a < 1e9)) nan = 1; }
	if (!nan) {
		for (L i = 0; i < m; i++) {
			if (!(s->s[i] > 0) || !(s->z[i] > 0)) fail("C03", "starting s[%ld]=%g z[%ld]=%g", i, s->s[i], i, s->z[i]);
			double tol = 1e-9 * sc;
			if (fabs(mn) > tol) { double e = mn > 0 ? zi[i] : zi[i] + 1 - mn; if (!(fabs(s->s[i] - e) <= tol)) fail("C15", "starting s[%ld] is %g instead of %g", i, s->s[i], e); }
			if (fabs(mx) > tol) { double e = mx < 0 ? -zi[i] : -zi[i] + 1 + mx; if (!(fabs(s->z[i] - e) <= tol)) fail("C15", "starting z[%ld] is %g instead of %g", i, s->z[i], e); }
		}
		if (!rg && pivots_ok(s)) {
			double *K = dkkt(q, p, NULL), *b = calloc(N, 8);
			for (L i = 0; i < n; i++) b[i] = -q->c[i];
			for (L i = 0; i < p; i++) b[n + i] = q->b[i];
			for (L i = 0; i < m; i++) b[n + p + i] = q->h[i];
			if (dsolve(N, K, b)) {
				double g = 1; for (L i = 0; i < N; i++) if (fabs(b[i]) > g) g = fabs(b[i]);
				for (L i = 0; i < N; i++) {
					double got = i < n ? s->x[i] : i < n + p ? s->y[i - n] : s->kkt->b[i];
					if (!(fabs(got - b[i]) <= 1e-5 * g)) { fail(i < n + p ? "C15" : "C07", "component %ld of the solution of the initial KKT system is %g instead of %g", i, got, b[i]); fail("C07", "component %ld of the solution of the initial KKT system is %g instead of %g", i, got, b[i]); }
				}
			}
			free(K); free(b);
		}
	}
	free(zi);
}
typedef struct { double *x, *y, *s, *z; } PT;
static PT snap(QP *s) { PT t; t.x = xm(s->n * 8); t.y = xm((s->p + 1) * 8); t.s = xm(s->m * 8); t.z = xm(s->m * 8); memcpy(t.x, s->x, s->n * 8); if (s->p) memcpy(t.y, s->y, s->p * 8); memcpy(t.s, s->s, s->m * 8); memcpy(t.z, s->z, s->m * 8); return t; }
static void fp(PT t) { free(t.x); free(t.y); free(t.s); free(t.z); }
/* one reference iteration from point t; compares the library's next point and internals */
static int ref_step(Q *q, QP *s, L p, PT t, double sig_in, const char *prop)
{
	L n = q->n, m = q->m, N = n + m + p; int res = 0;
	double *rx = calloc(n, 8), *ry = calloc(p + 1, 8), *rz = calloc(m, 8), sc; resid(q, p, t.x, t.y, t.s, t.z, rx, ry, rz, &sc);
	double mu = 0; for (L i = 0; i < m; i++) mu += t.s[i] * t.z[i]; mu /= m;
	double *W = calloc(m, 8), *ds = calloc(m, 8), *b = calloc(N, 8), *dsl = calloc(m, 8); int wok = 1;
	for (L i = 0; i < m; i++) { W[i] = t.s[i] / t.z[i]; if (!(W[i] > 1e-3 && W[i] < 1e3)) wok = 0; }
	double *K = dkkt(q, p, W), sigma; double ap = 1, ad = 1;
	sigma = sig_in;
	if (sig_in > s->sigma_d) {
		for (L i = 0; i < m; i++) ds[i] = -t.s[i] * t.z[i];
		for (L i = 0; i < n; i++) b[i] = rx[i];
		for (L i = 0; i < p; i++) b[n + i] = ry[i];
		for (L i = 0; i < m; i++) b[n + p + i] = rz[i] - ds[i] / t.z[i];
		if (!wok || !dsolve(N, K, b)) goto out;
		for (L i = 0; i < m; i++) dsl[i] = (ds[i] - t.s[i] * b[n + p + i]) / t.z[i];
		ap = ad = INFINITY; 
		for (L i = 0; i < m; i++) { if (dsl[i] < 0 && -t.s[i] / dsl[i] < ap) ap = -t.s[i] / dsl[i]; if (b[n + p + i] < 0 && -t.z[i] / b[n + p + i] < ad) ad = -t.z[i] / b[n + p + i]; }
		if (!(ap < 1e10)) ap = 1;
		if (!(ad < 1e10)) ad = 1;
		double rho = 0; for (L i = 0; i < m; i++) rho += (t.s[i] + ap * dsl[i]) * (t.z[i] + ad * b[n + p + i]);
		rho /= mu * m; if (rho > 1) rho = 1;
		sigma = rho * rho * rho; if (sigma < s->sigma_d) sigma = s->sigma_d;
		for (L i = 0; i < m; i++) ds[i] = -t.s[i] * t.z[i] - dsl[i] * b[n + p + i] + sigma * mu;
	} else { if (!wok) goto out; sigma = s->sigma_d; for (L i = 0; i < m; i++) ds[i] = -t.s[i] * t.z[i] + sigma * mu; }
	for (L i = 0; i < n; i++) b[i] = rx[i];
	for (L i = 0; i < p; i++) b[n + i] = ry[i];
	for (L i = 0; i < m; i++) b[n + p + i] = rz[i] - ds[i] / t.z[i];
	if (!dsolve(N, K, b)) goto out;
	for (L i = 0; i < m; i++) dsl[i] = (ds[i] - t.s[i] * b[n + p + i]) / t.z[i];
	if (!pivots_ok(s)) goto out;
	double g = 1; for (L i = 0; i < N; i++) if (fabs(b[i]) > g) g = fabs(b[i]);
	for (L i = 0; i < m; i++) if (fabs(dsl[i]) > g) g = fabs(dsl[i]);
	if (g > 1e6) goto out;
	res = 1;
	double tol = 1e-4 * g;
	if (!(fabs(s->options->sigma - sigma) <= 1e-5 * (1 + fabs(sigma)))) fail(prop, "centring parameter %g instead of %g", s->options->sigma, sigma);
	for (L i = 0; i < n; i++) if (!(fabs(s->delta_x[i] - b[i]) <= tol)) fail(prop, "delta_x[%ld] is %g instead of %g", i, s->delta_x[i], b[i]);
	for (L i = 0; i < p; i++) if (!(fabs(s->delta_y[i] - b[n + i]) <= tol)) fail(prop, "delta_y[%ld] is %g instead of %g", i, s->delta_y[i], b[n + i]);
	for (L i = 0; i < m; i++) if (!(fabs(s->delta_z[i] - b[n + p + i]) <= tol)) fail(prop, "delta_z[%ld] is %g instead of %g", i, s->delta_z[i], b[n + p + i]);
	for (L i = 0; i < m; i++) if (!(fabs(s->delta_s[i] - dsl[i]) <= tol)) fail(prop, "delta_s[%ld] is %g instead of %g", i, s->delta_s[i], dsl[i]);
	check_kkt("C04", q, s, p, W, 1e-9);
out:
	free(rx); free(ry); free(rz); free(W); free(ds); free(b); free(dsl); free(K);
	return res;
}
static void check_step(QP *s, PT t)
{
	/* step lengths and positivity, exactly as documented (up to rounding) */
	double ap = s->stats->alpha_p, ad = s->stats->alpha_d;
	for (L i = 0; i < s->m; i++) if (!(s->delta_s[i] == s->delta_s[i]) || !(s->delta_z[i] == s->delta_z[i]) || fabs(s->delta_s[i]) > 1e100 || fabs(s->delta_z[i]) > 1e100) return;
	for (int w = 0; w < 2; w++) {
		double a = w ? ad : ap, *v = w ? t.z : t.s, *d = w ? s->delta_z : s->delta_s, *nv = w ? s->z : s->s, lim = INFINITY; int neg = 0;
		if (!(a > 0) || a > 1) fail("C03", "%s step length %g", w ? "dual" : "primal", a);
		for (L i = 0; i < s->m; i++) if (d[i] < 0 && -v[i] / d[i] < lim) { lim = -v[i] / d[i]; neg = 1; }
		if (neg && a > 0.99 * lim * (1 + 1e-9)) fail("C03", "%s step length %g exceeds 0.99 x %g", w ? "dual" : "primal", a, lim);
		if (neg && 0.99 * lim < 1 && lim < 1e10 && a < 0.99 * lim * (1 - 1e-9)) fail("C13", "%s step length %g instead of %g", w ? "dual" : "primal", a, 0.99 * lim);
		for (L i = 0; i < s->m; i++) {
			double e = v[i] + a * d[i];
			if (!(nv[i] > 0) && v[i] > 1e-200) fail("C03", "%s[%ld] is %g after the step", w ? "z" : "s", i, nv[i]);
			if (!(fabs(nv[i] - e) <= 1e-9 * (fabs(v[i]) + fabs(a * d[i])))) fail("C13", "%s[%ld] is %g instead of %g after the step", w ? "z" : "s", i, nv[i], e);
		}
	}
	for (L i = 0; i < s->n; i++) { double e = t.x[i] + ap * s->delta_x[i]; if (!(fabs(s->x[i] - e) <= 1e-9 * (fabs(t.x[i]) + fabs(ap * s->delta_x[i])))) fail("C13", "x[%ld] is %g instead of %g after the step", i, s->x[i], e); }
	for (L i = 0; i < s->p; i++) { double e = t.y[i] + ad * s->delta_y[i]; if (!(fabs(s->y[i] - e) <= 1e-9 * (fabs(t.y[i]) + fabs(ad * s->delta_y[i])))) fail("C13", "y[%ld] is %g instead of %g after the step", i, s->y[i], e); }
}
static void check_exit(Q *q, QP *s, L ret, L maxit, double rel, double abs_)
{
	L n = q->n, m = q->m, p = s->p; stats *t = s->stats;
	if (ret != t->Flag) fail("C02", "returned %ld but the stored status is %ld", ret, t->Flag);
	if (ret < 0 || ret > 3) fail("C02", "status %ld is not documented", ret);
	if (t->IterationCount < 0 || (maxit >= 0 && t->IterationCount > maxit)) fail("C02", "%ld iterations with maxit=%ld", t->IterationCount, maxit);
	if (ret == QP_MAXIT && t->IterationCount != maxit) fail("C02", "maximum-iterations status after %ld of %ld iterations", t->IterationCount, maxit);
	if (ret != QP_MAXIT && ret != QP_KKTFAIL && t->IterationCount == maxit) fail("C02", "status %ld although the iteration budget is used up", ret);
	if (ret == QP_FATAL && maxit >= 0) fail("C02", "unknown-error status");
	if (ret == QP_KKTFAIL) fail("C08", "factorisation failure reported");
	double *rx = calloc(n, 8), *ry = calloc(p + 1, 8), *rz = calloc(m, 8), sc, mu = 0, f = 0, fa = 1;
	resid(q, p, s->x, s->y, s->s, s->z, rx, ry, rz, &sc);
	for (L i = 0; i < m; i++) mu += s->s[i] * s->z[i] / m;
	for (L i = 0; i < n; i++) { double v = 0; for (L j = 0; j < n; j++) { v += PV(q, i, j) * s->x[j]; fa += fabs(PV(q, i, j) * s->x[j] * s->x[i]); } f += 0.5 * v * s->x[i] + q->c[i] * s->x[i]; fa += fabs(q->c[i] * s->x[i]); }
	double slack = 1e-11 * sc * (n + m + p), lim = rel / sqrt(3.0);
	if (ret == QP_OPTIMAL) {
		if (!(nrm(rx, n) < lim + slack)) fail("C01", "optimal, but the stationarity residual is %g (limit %g)", nrm(rx, n), lim);
		if (!(nrm(ry, p) < lim + slack)) fail("C01", "optimal, but the equality residual is %g (limit %g)", nrm(ry, p), lim);
		if (!(nrm(rz, m) < lim + slack)) fail("C01", "optimal, but the inequality residual is %g (limit %g)", nrm(rz, m), lim);
		if (!(mu < abs_ * (1 + 1e-9))) fail("C01", "optimal, but the complementarity is %g (limit %g)", mu, abs_);
		for (L i = 0; i < m; i++) if (!(s->s[i] >= 0) || !(s->z[i] >= 0)) fail("C01", "optimal, but s[%ld]=%g z[%ld]=%g", i, s->s[i], i, s->z[i]);
		if (!(fabs(t->fval - f) <= 1e-10 * fa)) fail("C14", "reported objective %.12g instead of %.12g", t->fval, f);
		if (!(fabs(t->n_rx - nrm(rx, n)) <= slack) || (p && !(fabs(t->n_ry - nrm(ry, p)) <= slack)) || !(fabs(t->n_rz - nrm(rz, m)) <= slack) || !(fabs(t->n_mu - mu) <= 1e-10 * (mu + 1e-300)))
			fail("C14", "reported norms %g %g %g %g instead of %g %g %g %g", t->n_rx, p ? t->n_ry : 0, t->n_rz, t->n_mu, nrm(rx, n), nrm(ry, p), nrm(rz, m), mu);
	} else if (ret == QP_MAXIT && 0) ;
	free(rx); free(ry); free(rz);
}
/* copies of everything the caller owns */
typedef struct { void *p[24]; void *c[24]; size_t n[24]; int k; } SN;
static void sadd(SN *s, void *p, size_t n) { if (!p) return; s->p[s->k] = p; s->n[s->k] = n; s->c[s->k] = malloc(n + 1); memcpy(s->c[s->k], p, n); s->k++; }
static SN snapq(Q *q)
{
	SN s; s.k = 0; L N = q->n + q->m + q->p; M *a[3] = {&q->P, &q->G, &q->A};
	for (int i = 0; i < 3; i++) { sadd(&s, a[i]->jc, (a[i]->n + 1) * 8); sadd(&s, a[i]->ir, a[i]->nnz * 8); sadd(&s, a[i]->pr, a[i]->nnz * 8); }
	sadd(&s, q->c, q->n * 8); sadd(&s, q->h, q->m * 8); sadd(&s, q->b, (q->p ? q->p : 1) * 8); sadd(&s, q->perm, N * 8);
	sadd(&s, q->Pd, q->n * q->n * 8); sadd(&s, q->Gd, q->m * q->n * 8); sadd(&s, q->Ad, q->p * q->n * 8);
	return s;
}
static void scheck(SN *s, const char *when) { for (int i = 0; i < s->k; i++) if (memcmp(s->p[i], s->c[i], s->n[i])) fail("C11", "caller's array %d was modified by %s", i, when); }
static void sfree(SN *s) { for (int i = 0; i < s->k; i++) free(s->c[i]); }

typedef struct { L it, fl; double v[7]; double *d; L nd; } RES;
static RES result(QP *s)
{
	RES r; memset(&r, 0, sizeof r); r.it = s->stats->IterationCount; r.fl = s->stats->Flag;
	r.v[0] = s->stats->n_rx; r.v[1] = s->p ? s->stats->n_ry : 0; r.v[2] = s->stats->n_rz; r.v[3] = s->stats->n_mu; r.v[4] = s->stats->alpha_p; r.v[5] = s->stats->alpha_d; r.v[6] = s->stats->fval;
	r.nd = s->n + s->p + 2 * s->m; r.d = malloc((r.nd + 1) * 8); double *o = r.d;
	memcpy(o, s->x, s->n * 8); o += s->n; if (s->p) memcpy(o, s->y, s->p * 8); o += s->p; memcpy(o, s->s, s->m * 8); o += s->m; memcpy(o, s->z, s->m * 8);
	return r;
}
static int req(RES *a, RES *b) { return a->it == b->it && a->fl == b->fl && a->nd == b->nd && !memcmp(a->v, b->v, sizeof a->v) && !memcmp(a->d, b->d, a->nd * 8); }
static void opts(QP *s, L maxit, double rel, double ab) { s->options->maxit = maxit; s->options->reltol = rel; s->options->abstol = ab; }

static void run_case(void)
{
	Q q; gen(&q); SN sn = snapq(&q);
	int amdfail = !q.perm && chance(8);
	L base = live_blocks;
	void *(*om)(size_t) = amd_malloc;
	int verbose = chance(10) ? (int)ri(1, 2) : 0;
	if (amdfail) amd_malloc = failing_malloc;
	QP *s = setup(&q);
	amd_malloc = om;
	if (amdfail) { if (s->stats->AMD_RESULT >= 0) fail("C09", "ordering reports success without memory"); for (L i = 0; i < s->n + s->m + s->p; i++) if (s->kkt->P[i] != i) fail("C09", "the fallback ordering is not the natural order"); }
	scheck(&sn, "set-up");
	check_setup(&q, s);
	L p = s->p; double sig = s->options->sigma;
	/* exploration by iteration budget: fresh instance per budget */
	double rel = chance(80) ? 1e-6 : 1e-3, ab = chance(80) ? 1e-6 : 1e-2;
	L mode = ri(0, 3);
	if (mode == 0) {
		/* step by step: successive budgets */
		QP *s0 = setup(&q); PT t = snap(s0); cleanup(&q, s0);
		L K = ri(1, 6);
		QP *prev = s;
		for (L k = 1; k <= K; k++) {
			QP *u = setup(&q); opts(u, k, 1e-12, 1e-12);
			L r = QP_SOLVE(u);
			if (u->stats->Flag != r) fail("C02", "returned %ld but the stored status is %ld", r, u->stats->Flag);
			if (u->stats->IterationCount == k) {
				check_step(u, t);
				ref_step(&q, u, p, t, k == 1 ? sig : prev->options->sigma, "C13");
				check_factor(u, 1);
			}
			check_exit(&q, u, r, k, 1e-12, 1e-12);
			fp(t); t = snap(u);
			if (prev != s) cleanup(&q, prev);
			prev = u;
			if (u->stats->IterationCount < k) break;
		}
		if (prev != s) cleanup(&q, prev);
		fp(t);
	}
	L maxit = chance(60) ? 100 : ri(0, 12);
	opts(s, maxit, rel, ab); s->options->verbose = verbose;
	L r = QP_SOLVE(s);
	scheck(&sn, "solve");
	check_exit(&q, s, r, maxit, rel, ab);
	if (r == QP_OPTIMAL || r == QP_MAXIT) check_factor(s, 1);
	if (q.nice && maxit == 100 && rel > 1e-7 && q.sigma_d == 0 && !q.feasible) ;
	/* solving again */
	if (chance(40)) {
		L mi = chance(50) ? 100 : ri(0, 3); double r2 = chance(50) ? rel : 1e-9;
		opts(s, mi, r2, ab);
		r = QP_SOLVE(s);
		check_exit(&q, s, r, mi, r2, ab);
	}
	/* independence */
	if (mode == 1) {
		Q o; gen(&o);
		QP *a = setup(&q); opts(a, maxit, rel, ab); QP_SOLVE(a); RES ra = result(a); cleanup(&q, a);
		QP *b = setup(&q), *c = setup(&o); opts(b, maxit, rel, ab); opts(c, maxit, rel, ab);
		QP_SOLVE(c); if (chance(50)) cleanup(&o, c), c = 0;
		QP_SOLVE(b); RES rb = result(b);
		if (!req(&ra, &rb)) fail("C17", "the same problem gave a different result in another instance");
		QP *d = setup(&o); opts(d, maxit, rel, ab); QP_SOLVE(d); RES rd = result(d);
		if (c) { RES rc = result(c); if (!req(&rc, &rd)) fail("C17", "the same problem gave a different result after another instance was used"); free(rc.d); cleanup(&o, c); }
		RES rb2 = result(b); if (!req(&rb, &rb2)) fail("C17", "an instance changed while another one was used");
		free(rb2.d); cleanup(&q, b); cleanup(&o, d); free(ra.d); free(rb.d); free(rd.d); fq(&o);
	}
	cleanup(&q, s);
	scheck(&sn, "clean-up");
	if (live_blocks != base) fail("C10", "%ld blocks allocated by the library are still live after clean-up", live_blocks - base);
	sfree(&sn); fq(&q);
}

/* ---------------------------------------------------------------- kernels */
#ifndef NOUNIT
qp_real norm(qp_real *p, qp_int n);
static double wide(void) { return pow(10, (double)ri(-12, 12)); }   /* magnitudes a solver meets near the boundary */
static double *vec(L n) { double *v = xm(n * 8); int w = chance(15); for (L i = 0; i < n; i++) { v[i] = chance(20) ? (double)ri(-2, 2) : 3 * ru(); if (w && chance(50)) v[i] *= wide(); } return v; }
static void unit_kernels(void)
{
	L big = chance(6) ? 40 : 6, m = ri(1, big), n = ri(1, big); double *d = calloc(m * n + 1, 8); int den = ri(0, 100);
	for (L i = 0; i < m * n; i++) if (chance(den)) d[i] = chance(50) ? rnice() : ru();
	M a = mk(m, n, d, chance(50), chance(30)); smat A; A.jc = a.jc; A.ir = a.ir; A.pr = a.pr; A.m = m; A.n = n; A.nnz = a.nnz;
	for (int tr = 0; tr < 2; tr++) for (int st = 0; st < 2; st++) {
		L r = tr ? n : m, c = tr ? m : n; double *x = vec(c), *y = vec(r), *o = calloc(r + 1, 8); memcpy(o, y, r * 8);
		if (tr) SparseMatrixTransMultiply(&A, x, y, st ? 1 : 0); else SparseMatrixMultiply(&A, x, y, st ? (chance(50) ? 1 : 7) : 0);
		for (L i = 0; i < r; i++) { double e = st ? 0 : o[i], ab = fabs(e); for (L j = 0; j < c; j++) { double w = (tr ? d[i * m + j] : d[j * m + i]) * x[j]; e -= w; ab += fabs(w); } if (!(fabs(y[i] - e) <= 1e-12 * ab)) fail("C05", "%s multiply (start=%d): component %ld is %g instead of %g", tr ? "transposed" : "plain", st, i, y[i], e); }
		free(x); free(y); free(o);
	}
	smat T; T.jc = xm((m + 1) * 8); T.ir = xm(a.nnz * 8); T.pr = xm(a.nnz * 8); T.n = m; T.m = n; T.nnz = a.nnz;
	SparseMatrixTranspose(&A, &T); cmp_smat("C05", "transpose", &T, m, n, d, 1, 1, a.nnz);
	/* order within a column of the transpose: that of the source columns */
	L *lti = xm(a.nnz * 8), *ltp = xm((m + 1) * 8); Transpose_Row_Count(m, n, a.ir, a.jc, lti, ltp);
	for (L i = 0; i <= m; i++) if (ltp[i] != T.jc[i]) fail("C05", "row counts differ");
	for (L i = 0; i < a.nnz; i++) if (lti[i] != T.ir[i]) fail("C05", "row count transposition differs");
	free(T.jc); free(T.ir); free(T.pr); free(lti); free(ltp); fm(&a);
	/* vector kernels */
	L k = ri(1, chance(15) ? 70 : 7); double *x = vec(k), *y = vec(k), *s = vec(k), *z = vec(k), *t = xm(k * 8), al = ru() * 2, e = 0, ab = 0, be = ru();
	for (L i = 0; i < k; i++) { s[i] = fabs(s[i]) + 0.01; z[i] = fabs(z[i]) + 0.01; }
	for (L i = 0; i < k; i++) { e += x[i] * y[i]; ab += fabs(x[i] * y[i]); }
	if (!(fabs(innerproduct(x, y, k) - e) <= 1e-12 * ab)) fail("C05", "inner product %g instead of %g", innerproduct(x, y, k), e);
	double nn = 0, mn = x[0], mx = x[0], gmn = 0, gmx = 0; for (L i = 0; i < k; i++) { nn += x[i] * x[i]; if (x[i] < mn) mn = x[i]; if (x[i] > mx) mx = x[i]; }
	if (!(fabs(norm(x, k) - sqrt(nn)) <= 1e-12 * sqrt(nn))) fail("C05", "norm of a vector of length %ld is %g instead of %g", k, norm(x, k), sqrt(nn));
	findminmax(x, k, &gmn, &gmx); if (gmn != mn || gmx != mx) fail("C05", "minimum and maximum %g %g instead of %g %g", gmn, gmx, mn, mx);
	{	/* scaling update on a small KKT-shaped matrix: only the last entry of each of the last k columns changes */
		L h = ri(1, 4), N = h + k, nz = h * 2 + k * 2, *jc = xm((N + 1) * 8), *ir = xm(nz * 8); double *pr = xm(nz * 8), *o = xm(nz * 8);
		for (L j = 0; j <= N; j++) jc[j] = 2 * j;
		for (L j = 0; j < N; j++) { ir[2 * j] = ri(0, h - 1); ir[2 * j + 1] = j < h ? h : j; pr[2 * j] = ru(); pr[2 * j + 1] = -1; }
		memcpy(o, pr, nz * 8); smat K; K.m = K.n = N; K.nnz = nz; K.jc = jc; K.ir = ir; K.pr = pr; L pp = ri(0, h - 1);
		updatekktmatrix(&K, s, z, x, y, al, be, k, h - pp, pp, 0);
		for (L i = 0; i < nz; i++) { double w = (i >= 2 * h && i % 2) ? -s[(i - 2 * h) / 2] / z[(i - 2 * h) / 2] : o[i]; if (!(fabs(pr[i] - w) <= 1e-12 * fabs(w))) { fail("C04", "scaling update: slot %ld is %g instead of %g", i, pr[i], w); break; } }
		double *bb = xm(N * 8), *rx = vec(h), *ds = vec(k); updatekktmatrix_b(bb, rx, rx + (h - pp), x, ds, z, h - pp, k, pp);
		for (L i = 0; i < N; i++) { double w = i < h ? rx[i] : x[i - h] - ds[i - h] / z[i - h], ab2 = i < h ? 0 : fabs(x[i - h]) + fabs(ds[i - h] / z[i - h]); if (!(fabs(bb[i] - w) <= 1e-12 * ab2)) { fail("C13", "right-hand side: component %ld is %g instead of %g", i, bb[i], w); break; } }
		free(jc); free(ir); free(pr); free(o); free(bb); free(rx); free(ds);
	}
	memcpy(t, x, k * 8); updatevariables(t, y, al, k);
	for (L i = 0; i < k; i++) if (!(fabs(t[i] - (x[i] + al * y[i])) <= 1e-12 * (fabs(x[i]) + fabs(al * y[i])))) fail("C05", "vector update: component %ld is %g", i, t[i]);
	formlambda(t, s, z, k); for (L i = 0; i < k; i++) if (!(fabs(t[i] * t[i] - s[i] * z[i]) <= 1e-12 * s[i] * z[i]) || t[i] < 0) fail("C13", "lambda[%ld]^2 is %g instead of %g", i, t[i] * t[i], s[i] * z[i]);
	double *la = xm(k * 8); memcpy(la, t, k * 8);
	for (int sel = 0; sel < 3; sel++) { form_ds(t, la, x, y, al, be, k, sel); for (L i = 0; i < k; i++) { double w = -la[i] * la[i] + (sel ? al * be : 0) - (sel == 1 ? x[i] * y[i] : 0); if (!(fabs(t[i] - w) <= 1e-12 * (la[i] * la[i] + fabs(al * be) + fabs(x[i] * y[i])))) fail("C13", "ds[%ld] for selector %d is %g instead of %g", i, sel, t[i], w); } }
	{ double nu = 0, de = 0, a2 = 0; for (L i = 0; i < k; i++) { nu += (s[i] + al * x[i]) * (z[i] + be * y[i]); a2 += fabs((s[i] + al * x[i]) * (z[i] + be * y[i])); de += s[i] * z[i]; } if (!(fabs(formrho(s, x, z, y, al, be, k) - nu / de) <= 1e-11 * a2 / de)) fail("C13", "rho is %g instead of %g", formrho(s, x, z, y, al, be, k), nu / de); }
	{ double ap, ad, ep = INFINITY, ed = INFINITY; findsteplength(s, x, z, y, k, &ap, &ad); for (L i = 0; i < k; i++) { if (x[i] < 0 && -s[i] / x[i] < ep) ep = -s[i] / x[i]; if (y[i] < 0 && -z[i] / y[i] < ed) ed = -z[i] / y[i]; }
		if (!(ep < 1e10)) ep = 1;
		if (!(ed < 1e10)) ed = 1;
		if (!(fabs(ap - ep) <= 1e-12 * ep) || !(fabs(ad - ed) <= 1e-12 * ed)) { fail("C13", "step lengths %g %g instead of %g %g", ap, ad, ep, ed); if (ap > ep * (1 + 1e-12) || ad > ed * (1 + 1e-12)) fail("C03", "step lengths %g %g exceed the boundary %g %g", ap, ad, ep, ed); } }
	free(x); free(y); free(s); free(z); free(t); free(la);
	/* dense import */
	double *D = xm(m * n * 8), *Dr = xm(m * n * 8); L nz = 0;
	for (L i = 0; i < m; i++) for (L j = 0; j < n; j++) { double v = chance(den) ? (chance(5) ? NAN : chance(10) ? -0.0 : chance(10) ? 1e-320 : ru()) : 0.0; D[j * m + i] = v; Dr[i * n + j] = v; nz += (v != 0); }
	smat B, C; densetosparse(m, n, D, &B); densetosparse_ROWMAJOR(m, n, Dr, &C); cmp_smat("C06", "column-major import", &B, m, n, D, 0, 1, nz); cmp_smat("C06", "row-major import", &C, m, n, D, 0, 1, nz);
	qpv_free(B.jc); qpv_free(B.ir); qpv_free(B.pr); qpv_free(C.jc); qpv_free(C.ir); qpv_free(C.pr); free(D); free(Dr);
}
static void unit_ldl(void)
{
	/* pivots: matrices with exactly representable eliminations */
	L N = ri(1, 7); double *K = calloc(N * N, 8); static const double piv[] = {0, 1e-14, -1e-14, 1.0000000001e-14, -1.0000000001e-14, 5e-15, -5e-15, 2e-14, -2e-14, 1e-7, -1e-7, 1, -1, 4, -2, 1e-300, -1e-300, 1e-10, -1e-12};
	int diag = chance(50);
	for (L i = 0; i < N; i++) K[i * N + i] = diag ? piv[ri(0, 18)] : (double)ri(-3, 6);
	if (!diag) { int den = ri(10, 90); for (L i = 0; i < N; i++) for (L j = 0; j < i; j++) if (chance(den)) K[i * N + j] = K[j * N + i] = (double)ri(-2, 2); }
	M a = mk(N, N, K, chance(50), 0);
	/* store the whole diagonal half of the time (explicit zeros) */
	L *P = 0, *Pinv = 0;
	if (chance(70)) { P = xm(N * 8); Pinv = xm(N * 8); for (L i = 0; i < N; i++) P[i] = i; for (L i = N - 1; i > 0; i--) { L u = ri(0, i), t = P[i]; P[i] = P[u]; P[u] = t; } }
	L *Lp = xm((N + 1) * 8), *Pa = xm(N * 8), *Ln = xm(N * 8), *Fl = xm(N * 8), *Pt = xm(N * 8); double *D = xm(N * 8), *Y = xm(N * 8);
	LDL_symbolic(N, a.jc, a.ir, Lp, Pa, Ln, Fl, P, Pinv);
	if (Lp[0] != 0) fail("C07", "Lp[0] is %ld", Lp[0]);
	for (L i = 0; i < N; i++) { if (Lp[i + 1] < Lp[i] || Lp[i + 1] - Lp[i] > N - 1 - i) fail("C07", "column %ld of L has %ld entries", i, Lp[i + 1] - Lp[i]); if (Pa[i] != -1 && (Pa[i] <= i || Pa[i] >= N)) fail("C07", "parent of %ld is %ld", i, Pa[i]); if ((Lp[i + 1] > Lp[i]) != (Pa[i] != -1)) fail("C07", "elimination tree and column count of %ld disagree", i); }
	L lnz = Lp[N]; L *Li = xm((lnz) * 8); double *Lx = xm((lnz) * 8);
	L r = LDL_numeric(N, a.jc, a.ir, a.pr, Lp, Pa, Ln, Li, Lx, D, Y, Pt, Fl, P, Pinv);
	if (r != N) fail("C08", "factorisation reports %ld of %ld", r, N);
	double *Ld = calloc(N * N, 8); int exact = diag;
	for (L j = 0; j < N; j++) { Ld[j * N + j] = 1; for (L e = Lp[j]; e < Lp[j + 1]; e++) { L i = Li[e]; if (i <= j || i >= N) { fail("C07", "L entry (%ld,%ld) is not below the diagonal", i, j); goto out; } if (Ld[j * N + i] != 0) fail("C07", "L entry stored twice"); Ld[j * N + i] = Lx[e]; } }
	int bad = 0;
	for (L j = 0; j < N; j++) for (L i = j; i < N; i++) {
		double v = 0, ab = 0, e = P ? K[P[j] * N + P[i]] : K[j * N + i];
		for (L t = 0; t < j; t++) { double u = Ld[t * N + i] * D[t] * Ld[t * N + j]; v += u; ab += fabs(u); }
		if (i == j) {
			double pre = e - v, err = exact ? 0 : 1e-9 * (ab + fabs(e)) + (bad ? INFINITY : 0);
			if (D[j] == 0) fail("C08", "pivot %ld is zero", j);
			if (err < 1e300) {
				double ex = fabs(pre) <= 1e-14 ? (pre > 0 ? 1e-7 : -1e-7) : pre;
				if (exact ? D[j] != ex : (fabs(pre) > 1e-13 + err && !(fabs(D[j] - pre) <= err))) fail("C08", "pivot %ld is %g; before regularisation it is %g", j, D[j], pre);
				if (!exact && fabs(pre) > 1e-6 + err && !(fabs(D[j] - pre) <= err)) fail("C07", "diagonal %ld: %g instead of %g", j, D[j], pre);
			}
			if (!(fabs(D[j]) > 1e-5)) bad = 1;
		} else if (!bad) { double w = v + Ld[j * N + i] * D[j]; if (!(fabs(w - e) <= 1e-9 * (ab + fabs(Ld[j * N + i] * D[j]) + fabs(e)) + 1e-100)) fail("C07", "LDL' entry (%ld,%ld) is %g instead of %g", i, j, w, e); }
	}
	{	/* the triangular solves against the factor itself */
		double *b = vec(N), *x = xm(N * 8), *y = xm(N * 8), sc = 1;
		if (P) { LDL_perm(N, x, b, P); for (L i = 0; i < N; i++) if (x[i] != b[P[i]]) fail("C07", "permute: component %ld", i); LDL_permt(N, y, x, P); for (L i = 0; i < N; i++) if (y[i] != b[i]) fail("C07", "un-permute: component %ld", i); }
		for (int w = 0; w < 2; w++) {
			memcpy(x, b, N * 8); if (w) LDL_ltsolve(N, x, Lp, Li, Lx); else LDL_lsolve(N, x, Lp, Li, Lx);
			for (L i = 0; i < N; i++) { double v = 0, ab = 0; for (L j = 0; j < N; j++) { double l = w ? Ld[i * N + j] : Ld[j * N + i]; v += l * x[j]; ab += fabs(l * x[j]); } if (ab < 1e12 && !(fabs(v - b[i]) <= 1e-10 * (ab + fabs(b[i])))) fail("C07", "%s solve: residual %g in row %ld", w ? "backward" : "forward", v - b[i], i); }
		}
		memcpy(x, b, N * 8); LDL_dsolve(N, x, D); for (L i = 0; i < N; i++) if (!(fabs(x[i] * D[i] - b[i]) <= 1e-12 * fabs(b[i]))) fail("C07", "diagonal solve: component %ld", i);
		(void)sc; free(b); free(x); free(y);
	}
out:
	free(Ld); free(Li); free(Lx); free(Lp); free(Pa); free(Ln); free(Fl); free(Pt); free(D); free(Y); free(P); free(Pinv); fm(&a);
}
#endif
/* ---------------------------------------------------------------- ordering */
static void unit_amd(void)
{
	L n = chance(50) ? ri(0, 6) : ri(1, 45); int kind = ri(0, 5); int den = chance(50) ? ri(1, 15) : ri(5, 95);
	char *st = calloc(n * n + 1, 1);
	for (L j = 0; j < n; j++) for (L i = 0; i < n; i++) if (chance(den)) { st[j * n + i] = 1; if (kind != 1) st[i * n + j] = 1; }
	if (kind == 2 && n) { L r = ri(0, n - 1); for (L i = 0; i < n; i++) st[r * n + i] = st[i * n + r] = 1; }
	if (kind == 3) for (L i = 0; i + 1 < n; i++) { st[i * n + i + 1] = st[(i + 1) * n + i] = 1; }
	L k = 0, dup = chance(20); for (L i = 0; i < n * n; i++) k += st[i]; 
	L *Ap = xm((n + 1) * 8), *Ai = xm((dup ? 2 * k : k) * 8 + 8); k = 0;
	for (L j = 0; j < n; j++) { Ap[j] = k; for (L i = 0; i < n; i++) if (st[j * n + i]) { Ai[k++] = i; if (dup && chance(30)) Ai[k++] = i; }
		if (kind == 4) for (L t = k - 1; t > Ap[j]; t--) { L u = ri(Ap[j], t), x = Ai[t]; Ai[t] = Ai[u]; Ai[u] = x; } }
	Ap[n] = k;
	if (dup) { L *x = xm(k * 8 + 8); memcpy(x, Ai, k * 8); free(Ai); Ai = x; }
	L *P = xm(n * 8); double C[AMD_CONTROL], I[AMD_INFO]; L base = live_blocks;
	amd_l_defaults(C);
	if (chance(15)) C[AMD_DENSE] = chance(50) ? -1 : (double)ri(0, 3);
	if (chance(15)) C[AMD_AGGRESSIVE] = 0;
	int useC = chance(80), useI = chance(80), bad = 0;
	/* malformed input; the entry list has one slot more than Ap[n] so that a routine may look at every entry its column pointers name */
	Ai[k] = 0;
	if (chance(25)) {
		bad = (int)ri(1, 6);
		if (bad == 1) { if (n == 0) bad = 0; else Ap[0] = 1; }
		else if (bad == 2) { if (k == 0) bad = 0; else Ai[ri(0, k - 1)] = n; }
		else if (bad == 3) { if (k == 0) bad = 0; else Ai[ri(0, k - 1)] = -1; }
		else if (bad == 4) { if (n < 2 || k == 0) bad = 0; else { Ap[ri(1, n - 1)] = k + 1; } }
		else if (bad == 5) { if (n == 0) bad = 0; else Ap[n] = -1; }
		else if (bad == 6) { L r = amd_l_order(-1, Ap, Ai, P, C, I); if (r != AMD_INVALID) fail("C09", "negative dimension accepted (%ld)", r); r = amd_l_order(n, NULL, Ai, P, C, I); if (n && r != AMD_INVALID) fail("C09", "missing column pointers accepted"); bad = 0; }
	}
	L *Ap0 = xm((n + 1) * 8); memcpy(Ap0, Ap, (n + 1) * 8);
	L *Ai0 = xm(k * 8 + 8); memcpy(Ai0, Ai, k * 8);
	L r = amd_l_order(n, Ap, Ai, P, useC ? C : NULL, useI ? I : NULL);
	if (live_blocks != base) { fail("C10", "the ordering leaves %ld blocks allocated", live_blocks - base); }
	if (bad) { if (r != AMD_INVALID) fail("C09", "malformed matrix (kind %d) accepted with result %ld", bad, r); }
	else {
		if (r != AMD_OK && r != AMD_OK_BUT_JUMBLED) fail("C09", "ordering of a valid matrix returns %ld", r);
		int jum = 0; for (L j = 0; j < n; j++) for (L e = Ap[j] + 1; e < Ap[j + 1]; e++) if (Ai[e] <= Ai[e - 1]) jum = 1;
		if (jum != (r == AMD_OK_BUT_JUMBLED)) fail("C09", "sortedness misreported");
		char *seen = calloc(n + 1, 1);
		for (L i = 0; i < n; i++) { if (P[i] < 0 || P[i] >= n || seen[P[i]]) fail("C09", "the ordering is not a permutation of %ld rows (position %ld holds %ld)", n, i, P[i]); else seen[P[i]] = 1; }
		free(seen);
	}
	if (memcmp(Ap, Ap0, (n + 1) * 8) || memcmp(Ai, Ai0, k * 8)) fail("C11", "the ordering modified its input matrix");
	{ L v = amd_l_valid(n, n, Ap, Ai); if (bad ? v != AMD_INVALID : v != r) fail("C09", "amd_valid returns %ld", v); }
	free(st); free(Ap); free(Ai); free(Ap0); free(Ai0); free(P);
}
int main(int argc, char **argv)
{
	if (argc < 5) return 64;
	PROP = argv[1]; SEED = strtoul(argv[2], 0, 10); L from = atol(argv[3]), to = atol(argv[4]);
	NANOK = !strcmp(PROP, "C01") || !strcmp(PROP, "C02") || !strcmp(PROP, "C10") || !strcmp(PROP, "C11") || !strcmp(PROP, "C12") || !strcmp(PROP, "C17"); OUTFD = dup(1); int nul = open("/dev/null", O_WRONLY); if (nul >= 0) dup2(nul, 1);
	signal(SIGALRM, on_alarm);
	for (CASE = from; CASE < to; CASE++) {
		unsigned long h = SEED * 1000003UL + (unsigned long)CASE; h ^= h >> 33; h *= 0xff51afd7ed558ccdUL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53UL; h ^= h >> 33; rs = h | 1;
		alarm(10);
		dprintf(2, "@%ld\n", CASE);
		for (int i = 0; i < 8; i++) rnd();
		int w = (int)(CASE % 4);
#ifndef NOUNIT
		if (w == 1) { unit_kernels(); continue; }
		if (w == 2) { unit_ldl(); continue; }
#endif
		if (w == 3) { unit_amd(); continue; }
		run_case();
	}
	dprintf(OUTFD, "PASS %ld\n", to - from);
	return 0;
}
