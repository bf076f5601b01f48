From 1eb406918dac9dab6467c792c64f4d1ec5005960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:38 +0000
Subject: [PATCH 1/6] fix: keep the -I diagonal entry of the KKT matrix for
 inequality rows without entries

formkktmatrix_full wrote the -1 of a column of G' only while copying its last
entry, so an all-zero row of G lost its diagonal entry, shifting the slot that
updatekktmatrix later rewrites.
---
 src/Auxilary.c | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/Auxilary.c b/src/Auxilary.c
index cfdae2f..0557639 100644
--- a/src/Auxilary.c
+++ b/src/Auxilary.c
@@ -123,13 +123,10 @@ void formkktmatrix_full(smat *P, smat *G, smat *A, smat *Gt, smat *At, smat *kkt
 				kkt->ir[kkt_nnz] = Gt->ir[j];
 				kkt->pr[kkt_nnz] = Gt->pr[j];
 				kkt_nnz++;
-				if (j == Gt->jc[i + 1] - 1)
-				{
-					kkt->ir[kkt_nnz] = P->m + A->m + i;
-					kkt->pr[kkt_nnz] = -1.0;
-					kkt_nnz++;
-				}
 			}
+			kkt->ir[kkt_nnz] = P->m + A->m + i;
+			kkt->pr[kkt_nnz] = -1.0;
+			kkt_nnz++;
 			kkt->jc[i + 1 + P->n + At->n] = kkt_nnz;
 		}
 	}
@@ -168,13 +165,10 @@ void formkktmatrix_full(smat *P, smat *G, smat *A, smat *Gt, smat *At, smat *kkt
 				kkt->ir[kkt_nnz] = Gt->ir[j];
 				kkt->pr[kkt_nnz] = Gt->pr[j];
 				kkt_nnz++;
-				if (j == Gt->jc[i + 1] - 1)
-				{
-					kkt->ir[kkt_nnz] = P->m + i;
-					kkt->pr[kkt_nnz] = -1.0;
-					kkt_nnz++;
-				}
 			}
+			kkt->ir[kkt_nnz] = P->m + i;
+			kkt->pr[kkt_nnz] = -1.0;
+			kkt_nnz++;
 			kkt->jc[i + 1 + P->n] = kkt_nnz;
 		}
 	}
-- 
2.43.0


From 56d9d0496ca7bf5737c2371e5cc4bc73c10a4903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:38 +0000
Subject: [PATCH 2/6] fix: reset the status and the iteration count at the
 start of every solve

A second QP_SOLVE of the same instance kept adding to the old iteration count
and could return the status of the previous call (or overwrite a successful
convergence test with QP_MAXIT).
---
 src/qpSWIFT.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qpSWIFT.c b/src/qpSWIFT.c
index 8831d13..d18e9fc 100644
--- a/src/qpSWIFT.c
+++ b/src/qpSWIFT.c
@@ -499,6 +499,10 @@ qp_int QP_SOLVE(QP *myQP)
 	if (myQP->stats->Flag != QP_KKTFAIL)
 	{
 
+		/* The status and the iteration count describe this call only */
+		myQP->stats->Flag = QP_FATAL;
+		myQP->stats->IterationCount = 0;
+
 		for (idx = 0; idx < myQP->options->maxit; idx++)
 		{
 
-- 
2.43.0


From 54fb6e0a7c34ca4dc0eb9337bde87416e1ebaae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 3/6] fix: bound the natural-order fallback by the stored
 equality count

When the equality data is absent the stored count is 0, but the fallback used
after a failed AMD ordering ran to the caller's p, past the end of kkt->P.
---
 src/qpSWIFT.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qpSWIFT.c b/src/qpSWIFT.c
index d18e9fc..cf2ac1c 100644
--- a/src/qpSWIFT.c
+++ b/src/qpSWIFT.c
@@ -209,7 +209,7 @@ QP *QP_SETUP(qp_int n, qp_int m, qp_int p, qp_int *Pjc, qp_int *Pir, qp_real *Pp
 #ifdef MATLAB_MEX_FILE
 			PRINT("AMD is not succesful, Using a default permutation matrix \n");
 #endif
-			for (idx = 0; idx < n + m + p; idx++)
+			for (idx = 0; idx < n + m + myQP->p; idx++)
 			{
 				myQP->kkt->P[idx] = idx;
 			}
@@ -431,7 +431,7 @@ QP *QP_SETUP_dense(qp_int n, qp_int m, qp_int p, qp_real *Ppr, qp_real *Apr, qp_
 #ifdef MATLAB_MEX_FILE
 			PRINT("AMD is not succesful, Using a default permutation matrix \n");
 #endif
-			for (idx = 0; idx < n + m + p; idx++)
+			for (idx = 0; idx < n + m + myQP->p; idx++)
 			{
 				myQP->kkt->P[idx] = idx;
 			}
-- 
2.43.0


From e5a8a6e051ab8a91e73b15e842755890ec3fe2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 4/6] fix: check the number of dimensions of c, h and b before
 reading their length

qpSWIFT.run dereferenced the dimension pointer first, which is NULL for a
zero-dimensional array: the interpreter crashed instead of raising.
---
 python/pyqpSWIFT.c | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/python/pyqpSWIFT.c b/python/pyqpSWIFT.c
index 2f75797..27c149d 100644
--- a/python/pyqpSWIFT.c
+++ b/python/pyqpSWIFT.c
@@ -84,21 +84,7 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
         return NULL;
     }
 
-    qp_int n, m, p;
-    dims = PyArray_DIMS(c);
-    n = (qp_int)dims[0];
-    dims = PyArray_DIMS(h);
-    m = (qp_int)dims[0];
-    if (b && A)
-    {
-        dims = PyArray_DIMS(b);
-        p = (qp_int)dims[0];
-    }
-    else
-    {
-        p = 0;
-    }
-
+    qp_int n, m, p = 0;
     /*Check Input Data here*/
     /*---- c vector ------*/
     if (!PyArray_ISFLOAT(c) || (qp_int)(PyArray_NDIM(c) != 1))
@@ -106,6 +92,8 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
         PyErr_SetString(PyExc_TypeError, "c must be a floating array with one dimension");
         return NULL;
     }
+    dims = PyArray_DIMS(c);
+    n = (qp_int)dims[0];
     /*---- c vector ------*/
 
     /*---- h vector ------*/
@@ -114,6 +102,8 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
         PyErr_SetString(PyExc_TypeError, "h must be a floating array with one dimension");
         return NULL;
     }
+    dims = PyArray_DIMS(h);
+    m = (qp_int)dims[0];
     /*---- h vector ------*/
 
     /*---- b vector and A Matrix ------*/
@@ -125,6 +115,8 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             PyErr_SetString(PyExc_TypeError, "b must be a floating array with one dimension");
             return NULL;
         }
+        dims = PyArray_DIMS(b);
+        p = (qp_int)dims[0];
         /*---- b vector ------*/
 
         /*---- A Matrix ------*/
-- 
2.43.0


From ec022881eb5c2b63f61a572d7ed71b891bdb6795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 5/6] fix: leave no exception pending when OUTPUT falls back to
 its default

An OUTPUT that does not fit a long, or a warning turned into an error, left an
exception set while a result was returned.
---
 python/pyqpSWIFT.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/pyqpSWIFT.c b/python/pyqpSWIFT.c
index 27c149d..ba7e92a 100644
--- a/python/pyqpSWIFT.c
+++ b/python/pyqpSWIFT.c
@@ -272,7 +272,12 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             }
             else
             {
-                PyErr_WarnEx(PyExc_UserWarning, "output must be non-negative, using the default value", 1);
+                PyErr_Clear();
+                if (PyErr_WarnEx(PyExc_UserWarning, "output must be non-negative, using the default value", 1) < 0)
+                {
+                    Py_DECREF(opts_output);
+                    return NULL;
+                }
                 // PyErr_SetString(PyExc_TypeError, "verbose must be non-negative integer, using the default value");
                 // return NULL;
             }
-- 
2.43.0


From 1995a5f3e5b843f6972816ff8b330f3676f08a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:44 +0000
Subject: [PATCH 6/6] fix: initialise the residual and objective statistics in
 set-up

A solve that performs no iteration (maximum of zero iterations, or a
factorisation failure recorded by set-up) returned indeterminate values in
n_rx, n_ry, n_rz, n_mu and fval, and n_ry was never set for a problem without
equality constraints.
---
 src/qpSWIFT.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/qpSWIFT.c b/src/qpSWIFT.c
index cf2ac1c..95114dc 100644
--- a/src/qpSWIFT.c
+++ b/src/qpSWIFT.c
@@ -79,8 +79,13 @@ QP *QP_SETUP(qp_int n, qp_int m, qp_int p, qp_int *Pjc, qp_int *Pir, qp_real *Pp
 	myQP->stats = (stats *)MALLOC(sizeof(stats));
 	myQP->stats->Flag = QP_FATAL;
 	myQP->stats->IterationCount = 0;
+	myQP->stats->n_rx = 0.0;
+	myQP->stats->n_ry = 0.0;
+	myQP->stats->n_rz = 0.0;
+	myQP->stats->n_mu = 0.0;
 	myQP->stats->alpha_p = 0.0;
 	myQP->stats->alpha_d = 0.0;
+	myQP->stats->fval = 0.0;
 	/* Initialise Stats */
 
 	/* Initalize Matrices */
@@ -280,8 +285,13 @@ QP *QP_SETUP_dense(qp_int n, qp_int m, qp_int p, qp_real *Ppr, qp_real *Apr, qp_
 	myQP->stats = (stats *)MALLOC(sizeof(stats));
 	myQP->stats->Flag = QP_FATAL;
 	myQP->stats->IterationCount = 0;
+	myQP->stats->n_rx = 0.0;
+	myQP->stats->n_ry = 0.0;
+	myQP->stats->n_rz = 0.0;
+	myQP->stats->n_mu = 0.0;
 	myQP->stats->alpha_p = 0.0;
 	myQP->stats->alpha_d = 0.0;
+	myQP->stats->fval = 0.0;
 	/* Initialise Stats */
 
 	/* Initalize Matrices */
-- 
2.43.0

