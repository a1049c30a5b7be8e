From 75f4e4ae9896bbe4cad5db04893843ca430b27ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:12 +0000
Subject: [PATCH 01/54] fix: auto_arima_exec must not overwrite the configured
 period and length

The chosen model reports period 0 when it has no seasonal part; copying it
back made a second exec on the same object skip the seasonal search.
---
 src/ctsa.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index adb666d..cf56d4d 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -494,8 +494,6 @@ void auto_arima_exec(auto_arima_object obj, double *inp,double *xreg) {
 	obj->p = p;
 	obj->d = d;
 	obj->q = q;
-	obj->N = N;
-	obj->s = s;
 	obj->P = P;
 	obj->D = D;
 	obj->Q = Q;
-- 
2.43.0


From dfe2a6762ea7a5cc72711add50ef3cec1b63c6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:01 +0000
Subject: [PATCH 02/54] fix: free_auto releases the FFT plans it owns

---
 src/stats.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stats.c b/src/stats.c
index 022e2e6..809f3d0 100644
--- a/src/stats.c
+++ b/src/stats.c
@@ -182,5 +182,7 @@ void autocorr_fft(auto_fft_object obj,double* vec,double* acorr, int M) {
 }
 
 void free_auto(auto_fft_object object) {
+	free_real_fft(object->fobj);
+	free_real_fft(object->iobj);
 	free(object);
 }
-- 
2.43.0


From 8173f8711d2181e506c06d3e1cdf600c6b7fff07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:01 +0000
Subject: [PATCH 03/54] fix: as154 and as154_seas release their work arrays
 when the CSS start is rejected

---
 src/emle.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/emle.c b/src/emle.c
index cf21961..501603b 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1473,7 +1473,10 @@ int as154(double *inp, int N, int optmethod, int p, int d, int q, double *phi, d
 		Q = 0;
 
 		ERR = checkroots_cerr(phi, &p, theta, &q, NULL, &P, NULL, &Q);
-		if (ERR == 10 || ERR == 12) return ERR;
+		if (ERR == 10 || ERR == 12) {
+			free(x);
+			return ERR;
+		}
 
 		coeff = *wmean;
 	}
@@ -2710,7 +2713,10 @@ int as154_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, in
 		css_seas(inp, N, optmethod, p, d, q, s, P, D, Q, phi, theta, PHI, THETA, wmean, var, loglik, hess);
 
 		ERR = checkroots_cerr(phi, &p, theta, &q, PHI, &P, THETA, &Q);
-		if (ERR == 10 || ERR == 12) return ERR;
+		if (ERR == 10 || ERR == 12) {
+			free(inp2);
+			return ERR;
+		}
 
 		coeff = *wmean;
 	}
-- 
2.43.0


From 6ced91e2db35fd13b571a6976d657f278f6309ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:28 +0000
Subject: [PATCH 04/54] fix: lls_normal, minfit, svd and rank_c release their
 work arrays on failure

---
 src/lls.c    | 7 +++++++
 src/matrix.c | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/src/lls.c b/src/lls.c
index debe859..e1b1cb3 100644
--- a/src/lls.c
+++ b/src/lls.c
@@ -30,6 +30,11 @@ int lls_normal(double *A,double *b,int M,int N,double *x) {
 
 	sc = chol(C,N);
 	if (sc == -1) {
+		free(AT);
+		free(d);
+		free(C);
+		free(CT);
+		free(y);
 		return -1;
 	}
 
@@ -970,6 +975,7 @@ int svd_gr2(double *A,int M,int N,double *U,double *V,double *q) {
 			iter++;
 			if (iter > SVDMAXITER) {
 				printf("Convergence Not Achieved \n");
+				free(e);
 				return 15;
 			}
 
@@ -1228,6 +1234,7 @@ int minfit(double *AB,int M,int N,int P,double *q) {
 			iter++;
 			if (iter > SVDMAXITER) {
 				printf("Convergence Not Achieved \n");
+				free(e);
 				return 15;
 			}
 
diff --git a/src/matrix.c b/src/matrix.c
index 09e3ae4..cd98e51 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -2808,6 +2808,7 @@ int svd(double *A,int M,int N,double *U,double *V,double *q) {
 			iter++;
 			if (iter > SVDMAXITER) {
 				printf("Convergence Not Achieved \n");
+				free(e);
 				return 15;
 			}
 
@@ -2963,6 +2964,9 @@ static int rank_c(double *A, int M,int N) {
 	qmax = q[0];
 	if ( ret != 0) {
 		printf("Failed to Compute SVD");
+		free(U);
+		free(V);
+		free(q);
 		return -1;
 	}
 
-- 
2.43.0


From 714f3827f920f9b6e62ca1801fbb81f1d7ea8ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:28 +0000
Subject: [PATCH 05/54] fix: ur_df2 releases the regressions and covariance of
 every lag it tries

---
 src/unitroot.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/unitroot.c b/src/unitroot.c
index 8fa0b9e..93da435 100644
--- a/src/unitroot.c
+++ b/src/unitroot.c
@@ -233,6 +233,7 @@ void ur_df2(double *y, int N,const char* type, int *lags,const char *selectlags,
                 }
 
                 free_reg(fit);
+                free(varcovar);
             }
 
             ctemp = DBL_MAX;
@@ -250,7 +251,6 @@ void ur_df2(double *y, int N,const char* type, int *lags,const char *selectlags,
 
             free(critRes);
             free(XX);
-            free(varcovar);
         }
 
         XX = (double*)malloc(sizeof(double)*N2*(lags_+1));
-- 
2.43.0


From 2b372b7f88cc5e67ba7a5b87a6b788b672f67888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:28 +0000
Subject: [PATCH 06/54] fix: OCSBtest uses the best lag found and releases the
 final regression

---
 src/seastest.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/seastest.c b/src/seastest.c
index 44153a0..3e37edd 100644
--- a/src/seastest.c
+++ b/src/seastest.c
@@ -646,7 +646,7 @@ void OCSBtest(double *x, int N, int f, int mlags, const char *method,double *sta
         }
 
         bestindex = getBestIndex(icvals,mlags);
-        maxlag = bestindex-1;
+        maxlag = bestindex;
         crit_reg = list[bestindex];
 
     }
@@ -675,6 +675,7 @@ void OCSBtest(double *x, int N, int f, int mlags, const char *method,double *sta
             printf("Could not find a solution. Try a different method. \n");
             exit(-1);
         } else {
+            free_reg(fit);
             fit = crit_reg;
         }
     }
@@ -687,13 +688,19 @@ void OCSBtest(double *x, int N, int f, int mlags, const char *method,double *sta
 
     //mdisplay(tval,1,fit->p);
 
-    for(i = 0; i < mlags;++i) {
-		free_reg(list[i]);
-    }
-
     *critical = calcOCSBCritVal(f);
     *statistics = tval[fit->p-1];
 
+    if (fit != crit_reg) {
+        free_reg(fit);
+    }
+
+    if (crit_reg != NULL) {
+        for(i = 0; i < mlags;++i) {
+            free_reg(list[i]);
+        }
+    }
+
     free(list);
     free(icvals);
     free(tval);
-- 
2.43.0


From 6313cc57ab33ade70035cb5b32556e9810f93e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:28 +0000
Subject: [PATCH 07/54] fix: VRSHFT starts from a defined relative step

---
 src/polyroot.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/polyroot.c b/src/polyroot.c
index ad89667..f685116 100644
--- a/src/polyroot.c
+++ b/src/polyroot.c
@@ -287,6 +287,7 @@ static void VRSHFT(int NN, int L3, double *ZR, double *ZI, int *CONV,double *SR,
 	*SI = *ZI;
 	B = 0;
 	*CONV = 0;
+	OMP = RELSTP = 0.0;
 
 
 	for (i = 0; i < L3; ++i) {
-- 
2.43.0


From 7e34d7ab7c881e7b1f5487361bc4e7dadcfe4f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:28 +0000
Subject: [PATCH 08/54] fix: ar_estimate keeps the order with the smallest AIC

---
 src/ctsa.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index cf56d4d..1eb81ed 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -4084,6 +4084,7 @@ int ar_estimate(double *x, int N, int method) {
 	}
 	wmean = mean(x, N);
 	aic0 = 0.0;
+	p = 0;
 	cssml = 0;
 
 	hess = (double*)malloc(sizeof(double)* (ordermax + 1) * (ordermax + 1));
@@ -4112,7 +4113,7 @@ int ar_estimate(double *x, int N, int method) {
 		lvar = log(var);
 		aic = lvar + 2 * (double)(i + 1) / N;
 		if (i == 0) {
-			aic = aic0;
+			aic0 = aic;
 			p = 1;
 		}
 		else {
-- 
2.43.0


From 7843d83ac44b1621b5d1943695b545cdc8eda5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:28 +0000
Subject: [PATCH 09/54] fix: boxcox rejects negative input

---
 src/boxcox.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/boxcox.c b/src/boxcox.c
index ff8f106..6585e9d 100644
--- a/src/boxcox.c
+++ b/src/boxcox.c
@@ -111,6 +111,7 @@ double boxcox(double *x, int N,double *lambda,double *y) {
     }
 
     // Check for negative values
+    cn = checkNegative(x,N);
 
     if (cn == 1) {
         printf("Input vector cannot have negative values. Exiting. \n");
-- 
2.43.0


From 371120ea809bdeb843dea66e9feadee463732899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:28 +0000
Subject: [PATCH 10/54] fix: inv_boxcox_eval does not return an indeterminate
 value

---
 src/boxcox.c | 2 +-
 src/boxcox.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/boxcox.c b/src/boxcox.c
index 6585e9d..edcf0b9 100644
--- a/src/boxcox.c
+++ b/src/boxcox.c
@@ -53,7 +53,7 @@ void boxcox_eval(double *x, int N, double lambda,double *bxcx) {
 
 }
 
-double inv_boxcox_eval(double *x,int N, double lambda,double *bxcx) {
+void inv_boxcox_eval(double *x,int N, double lambda,double *bxcx) {
     int i;
 
     if (lambda == 0) {
diff --git a/src/boxcox.h b/src/boxcox.h
index 3ddb86d..31ff556 100644
--- a/src/boxcox.h
+++ b/src/boxcox.h
@@ -13,7 +13,7 @@ int checkConstant(double *x, int N);
 
 void boxcox_eval(double *x, int N, double lambda,double *bxcx);
 
-double inv_boxcox_eval(double *x,int N, double lambda,double *bxcx);
+void inv_boxcox_eval(double *x,int N, double lambda,double *bxcx);
 
 double boxcox_loglik(double lambda, void *params);
 
-- 
2.43.0


From 84daa0dde7f898dc305596da9fbc57f1821f788c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:28 +0000
Subject: [PATCH 11/54] fix: special functions return NaN for NaN arguments

---
 src/dist.c   | 9 ++++++---
 src/erfunc.c | 3 ++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/dist.c b/src/dist.c
index 0dfa448..f47e493 100644
--- a/src/dist.c
+++ b/src/dist.c
@@ -460,7 +460,8 @@ double beta_log(double a, double b) {
 
 
 double pgamma(double x, double a) {
-	double oup,ct,d,s,la;
+	double oup = NAN;
+	double ct,d,s,la;
 	double a0,a1,b0,b1,g,g0,delta,fact;
 	// Negative a
 	if (a < 0.) {
@@ -600,7 +601,8 @@ double bfrac(double x,double a, double b, int* ctr) {
 // This is Public Domain in the US (work of US government employees)
 // SPDX-License-Identifier: CC0
 double ibeta_appx(double x, double a , double b) {
-	double oup,abx,c2,w1,w2,num,den;
+	double oup = NAN;
+	double abx,c2,w1,w2,num,den;
 	/*
 	 * Method 2. uses approximation and is based on equations 26.5.20 
 	 * (pgamma/qgamma) and 26.5.21 (erf)
@@ -633,7 +635,8 @@ double ibeta_appx(double x, double a , double b) {
 // This is Public Domain in the US (work of US government employees)
 // SPDX-License-Identifier: CC0
 double ibeta(double x, double a , double b) {
-	double oup,temp;
+	double oup = NAN;
+	double temp;
 	int ctrlint;
 	/*
 	 * This program uses two methods described in Abramowitz and Stegun
diff --git a/src/erfunc.c b/src/erfunc.c
index 7aee364..5f62325 100644
--- a/src/erfunc.c
+++ b/src/erfunc.c
@@ -298,7 +298,8 @@ double erfinv(double x) {
 }
 
 double erfcinv(double x) {
-	double oup,xinf,pi,t;
+	double oup = NAN;
+	double xinf,pi,t;
 	
 	/*
 	 * This implementation is based on 
-- 
2.43.0


From 901892240edcafb51075c28f6f172bd7a0b78907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:28 +0000
Subject: [PATCH 12/54] fix: runseasonalitytests rejects an unknown test name

---
 src/autoutils.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/autoutils.c b/src/autoutils.c
index 45921a7..051ddfe 100644
--- a/src/autoutils.c
+++ b/src/autoutils.c
@@ -87,6 +87,9 @@ static int runseasonalitytests(double *x, int N,int f, const char * test) {
         crit = 0.64;
         SHtest(x,N,&f,1,&stat);
         diff = (stat > crit) ? 1 : 0;
+    } else {
+        printf("Only two tests are allowed - ocsb and seas \n");
+        exit(-1);
     }
 
     return diff;
-- 
2.43.0


From 331f3a01fe923dd755c5320caa7202897672a288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:28 +0000
Subject: [PATCH 13/54] fix: search_arima has a defined constant when every
 candidate fails

---
 src/ctsa.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ctsa.c b/src/ctsa.c
index 1eb81ed..76527e6 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -932,6 +932,12 @@ myarima_object search_arima(double *x, int N,int d, int D, int p_max, int q_max,
 	//printf("d %d D %d p_max %d q_max %d P_max %d Q_max %d maxK %d \n",d,D,p_max,q_max,P_max,Q_max,maxK);
 
 	best_ic = DBL_MAX;
+	bestK = 0;
+	bestorder[1] = d;
+	if (s > 0 && D > 0) {
+		bestseasonal[1] = D;
+		bestseasonal[3] = s;
+	}
 
 	for(i = 0; i <= p_max; ++i) {
 		for(j = 0;j <= q_max;++j) {
-- 
2.43.0


From 947bc452027aed721fe4a36d0dc4010032a1c0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:45 +0000
Subject: [PATCH 14/54] fix: auto_arima1 releases the exogenous regression

---
 src/ctsa.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ctsa.c b/src/ctsa.c
index 76527e6..2144783 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -1207,6 +1207,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 		//setIntercept(reg,0);
 		regress(reg,xreg,x,xx,varcovar,0.95);
 
+		free_reg(reg);
 		free(varcovar);
 	}
 
-- 
2.43.0


From 540e3f83612b79a9064bc9ddf19afac6320b55cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:45 +0000
Subject: [PATCH 15/54] fix: auto_arima1 differences every exogenous column

---
 src/ctsa.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 2144783..1149c36 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -1248,9 +1248,11 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 
 	if (xreg) {
 		if (D > 0) {
-			diffs(xreg,N,D,s,diffxreg);
+			for(i = 0; i < r;++i) {
+				diffs(xreg+i*N,N,D,s,diffxreg+i*Nd);
+			}
 		} else {
-			memcpy(diffxreg,xreg,N*r);
+			memcpy(diffxreg,xreg,sizeof(double)*N*r);
 		}
 	}
 
-- 
2.43.0


From 7be0b53aeb2af3932147bd64aafd79410955d9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:45 +0000
Subject: [PATCH 16/54] fix: auto_arima1 releases the last rejected refit

---
 src/ctsa.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ctsa.c b/src/ctsa.c
index 1149c36..960a15d 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -2147,6 +2147,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 		}
 
 		if (iapprox != 0) {
+			myarima_free(fit->myarima);
 			free(icvector);
 			free(icindex);
 		}
-- 
2.43.0


From 19bea9391b6b0f48e2736efa21812000bf282887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:45 +0000
Subject: [PATCH 17/54] fix: auto_arima1 refits the selected model with its own
 constant

---
 src/ctsa.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 960a15d..63bfa97 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -2137,7 +2137,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 				best_ic = fit->myarima->ic;
 				memcpy(bestorder,order,sizeof(int)*3);
 				memcpy(bestseasonalorder,seasonalorder,sizeof(int)*4);
-				bestconstant = constant;
+				bestconstant = (int) results[icindex[i]*8 + 6];
 				free(icvector);
 				free(icindex);
 				myarima_free(fit->myarima);
@@ -2156,7 +2156,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 
 	// Refit The Best Model
 
-	fit->myarima = myarima(x,N,bestorder,bestseasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+	fit->myarima = myarima(x,N,bestorder,bestseasonalorder,bestconstant, ic, trace, iapprox, offset,xreg, r, NULL);
 
 	
 
-- 
2.43.0


From b0297bc1251dacd401fe79e5a8879370bcb0f159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:45 +0000
Subject: [PATCH 18/54] fix: stepwise search keeps its last model and fits its
 result table

---
 src/ctsa.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 63bfa97..8b80b04 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -1442,7 +1442,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 	P = P_start = (P_start < P_max) ? P_start : P_max;
 	Q = Q_start = (Q_start < Q_max) ? Q_start : Q_max;
 
-	results = (double*)calloc(8*models,sizeof(double));
+	results = (double*)calloc(8*(models < 5 ? 5 : models),sizeof(double));
 
 	bestorder[0] = p;
 	bestorder[1] = d;
@@ -2088,8 +2088,8 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 	
 	}
 
-	k--;
-	if (k == models) {
+	if (k > models) {
+		k = models;
 		printf("Warning : Stepwise search was stopped early due to reaching the model number limit: %d \n",models);
 	}
 
-- 
2.43.0


From fea5099e54054fd290593dc0c492054cdbdf3029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:45 +0000
Subject: [PATCH 19/54] fix: auto_arima_exec leaves a defined result when no
 model fits

---
 src/ctsa.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 8b80b04..6463959 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -431,6 +431,9 @@ void auto_arima_exec(auto_arima_object obj, double *inp,double *xreg) {
 
 	imean = obj->imean;
 	idrift = obj->idrift;
+	p = d = q = P = D = Q = M = retval = 0;
+	s = obj->s;
+	N = obj->N;
 
 	if (fit->otype == 2) {
 		p = fit->Arima->sarimax->p;
@@ -4374,7 +4377,7 @@ void aa_ret_free(aa_ret_object object) {
 	// use proper free wrapers for given type 
 	if (object->otype == 1) {
 		myarima_free(object->myarima);
-	} else {
+	} else if (object->otype == 2) {
 		sarimax_wrapper_free(object->Arima);
 	}
 	free(object);
-- 
2.43.0


From 3e6475ee1dec76e586a211c2929499ff9467e5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:16 +0000
Subject: [PATCH 20/54] fix: myarima and sarimax_wrapper record the drift term
 and variance of every model

---
 src/ctsa.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ctsa.c b/src/ctsa.c
index 6463959..3575ea0 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -574,6 +574,8 @@ sarimax_wrapper_object sarimax_wrapper(sarimax_wrapper_object model,double *y, i
 	origx = (double*) malloc(sizeof(double)*N);
 	obj = (sarimax_wrapper_object) malloc (sizeof(struct sarimax_wrapper_set));
 
+	obj->idrift = 0;
+
 	memcpy(x,y,sizeof(double)*N);
 	memcpy(origx,y,sizeof(double)*N);
 
@@ -671,6 +673,8 @@ myarima_object myarima(double *x, int N, int *order, int *seasonal, int constant
 	fit = (myarima_object) malloc (sizeof(struct myarima_set));
 	
 	fit->ic = fit->aic = fit->bic = fit->aicc = DBL_MAX;
+	fit->sigma2 = 0.0;
+	fit->idrift = 0;
 
 	tol = 1e-08;
 
@@ -724,6 +728,7 @@ myarima_object myarima(double *x, int N, int *order, int *seasonal, int constant
 
 	if (diffs == 1 && constant == 1) {
 		imean = 1;
+		fit->idrift = 1;
 		rr++;
 		xreg2 = (double*)malloc(sizeof(double)*N*rr);
 		for(i = 0; i < N;++i) {
-- 
2.43.0


From f7ec6a31df31b6e347636085de5f81749a5b851f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:24 +0000
Subject: [PATCH 21/54] fix: lls_normal releases its transposed factor

---
 src/lls.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lls.c b/src/lls.c
index e1b1cb3..6dbefc8 100644
--- a/src/lls.c
+++ b/src/lls.c
@@ -69,6 +69,7 @@ int lls_normal(double *A,double *b,int M,int N,double *x) {
 	free(AT);
 	free(d);
 	free(C);
+	free(CT);
 	free(y);
 	return retcode;
 }
-- 
2.43.0


From fba82c50f021bed9f5265a6e72d3251f6286be25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:24 +0000
Subject: [PATCH 22/54] fix: ur_df2 rejects an unknown regression type without
 lags

---
 src/unitroot.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/unitroot.c b/src/unitroot.c
index 93da435..9edd496 100644
--- a/src/unitroot.c
+++ b/src/unitroot.c
@@ -430,6 +430,9 @@ void ur_df2(double *y, int N,const char* type, int *lags,const char *selectlags,
             *ltstat = 3;
 
             free(phi3_fit);
+        } else {
+            printf("type only accepts one of three values - none, drift and trend \n");
+            exit(-1);
         }
 
         free(XX);
-- 
2.43.0


From 531d0c56bcd5af3c008ab5182b1834b73dfbe4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:24 +0000
Subject: [PATCH 23/54] fix: fitOCSB uses the whole series when no lag is
 dropped

---
 src/seastest.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/seastest.c b/src/seastest.c
index 3e37edd..03233a8 100644
--- a/src/seastest.c
+++ b/src/seastest.c
@@ -453,6 +453,7 @@ reg_object fitOCSB(double *x, int N, int f, int lag, int mlags) {
 
     //mdisplay(ylag,ylrows,ylcols);
 
+    y2 = y;
     if (mlags > -1) {
         y2 = &y[mlags];
         Ny -= mlags;
-- 
2.43.0


From b7fcd135ecbbb044cd81fb0279623028974149c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:24 +0000
Subject: [PATCH 24/54] fix: stepwise search never drops evaluated models from
 its table

---
 src/ctsa.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 3575ea0..7b108a3 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -2096,8 +2096,8 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 	
 	}
 
-	if (k > models) {
-		k = models;
+	if (startk > 0 && k > models) {
+		k--;
 		printf("Warning : Stepwise search was stopped early due to reaching the model number limit: %d \n",models);
 	}
 
-- 
2.43.0


From 599bb8acf50364352aa5ecf13ee551583cd60537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:58 +0000
Subject: [PATCH 25/54] fix: model objects start with every field defined

---
 src/ctsa.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 7b108a3..987c4bb 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -20,7 +20,7 @@ arima_object arima_init(int p, int d, int q, int N) {
 	// retval = 4 Optimization Routine didn't converge
 	// Retval = 15 Optimization Routine Encountered Inf/Nan Values
 	
-	obj = (arima_object)malloc(sizeof(struct arima_set) + sizeof(double) * (p+q+N-d) + sizeof(double) * (p+q+M)*(p+q+M));
+	obj = (arima_object)calloc(1, sizeof(struct arima_set) + sizeof(double) * (p+q+N-d) + sizeof(double) * (p+q+M)*(p+q+M));
 
 	obj->p = p;
 	obj->d = d;
@@ -70,7 +70,7 @@ sarima_object sarima_init(int p, int d, int q,int s, int P,int D,int Q, int N) {
 	// retval = 4 Optimization Routine didn't converge
 	// Retval = 15 Optimization Routine Encountered Inf/Nan Values
 
-	obj = (sarima_object)malloc(sizeof(struct sarima_set) + sizeof(double)* (p + q + P + Q + N - d - s*D) + sizeof(double)* (p + q + P + Q + M)*(p + q + P + Q + M));
+	obj = (sarima_object)calloc(1, sizeof(struct sarima_set) + sizeof(double)* (p + q + P + Q + N - d - s*D) + sizeof(double)* (p + q + P + Q + M)*(p + q + P + Q + M));
 
 	obj->p = p;
 	obj->d = d;
@@ -128,7 +128,7 @@ ar_object ar_init(int method, int N) {
 
 	p = ordermax;
 
-	obj = (ar_object)malloc(sizeof(struct ar_set) + sizeof(double)* (p + N));
+	obj = (ar_object)calloc(1, sizeof(struct ar_set) + sizeof(double)* (p + N));
 
 	obj->p = obj->order = obj->ordermax = p;
 	obj->N = N;
@@ -186,7 +186,7 @@ sarimax_object sarimax_init(int p, int d, int q,int P, int D, int Q,int s, int r
 
 	*/
 	
-	obj = (sarimax_object)malloc(sizeof(struct sarimax_set) +
+	obj = (sarimax_object)calloc(1, sizeof(struct sarimax_set) +
 	 sizeof(double)* (p + q + P + Q + ncxreg + N - d - s*D) + sizeof(double)* (p + q + P + Q + ncxreg )*(p + q + P + Q + ncxreg ));
 
 	obj->p = p;
@@ -257,7 +257,7 @@ auto_arima_object auto_arima_init(int *pdqmax,int *PDQmax,int s, int r, int N) {
 		exit(-1);
 	}
 
-	obj = (auto_arima_object)malloc(sizeof(struct auto_arima_set) +
+	obj = (auto_arima_object)calloc(1, sizeof(struct auto_arima_set) +
 	 sizeof(double)* (pmax + qmax + Pmax + Qmax + ncxreg + N) + sizeof(double)* (pmax + qmax + Pmax + Qmax + ncxreg )*(pmax + qmax + Pmax + Qmax + ncxreg ));
 
 	obj->pmax = pmax;
-- 
2.43.0


From f9cd30f2e2fcebe3a1c36ff0ae742d9599cfc1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:44 +0000
Subject: [PATCH 26/54] fix: MLE starts ARMA(0,0) models from defined Kalman
 state

---
 src/emle.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emle.c b/src/emle.c
index 501603b..936a862 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1418,7 +1418,7 @@ double fas154(double *b,int pq,void *params) {
 
 	iupd = 0;
 
-	if (ip == 1 && iq == 0) {
+	if (ip <= 1 && iq == 0) {
 		*V = 1.0;
 		*A = 0.0;
 		*P = 1.0 / (1.0 - phi[0] * phi[0]);
@@ -2661,7 +2661,7 @@ double fas154_seas(double *b, int pq, void *params) {
 	iupd = 0;
 	//mdisplay(b, 1, pq);
 
-	if (ip == 1 && iq == 0) {
+	if (ip <= 1 && iq == 0) {
 		*V = 1.0;
 		*A = 0.0;
 		*P = 1.0 / (1.0 - phi[0] * phi[0]);
-- 
2.43.0


From 1ea612b98393b6ab1881e4d962ed9c94e6fc549d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:44 +0000
Subject: [PATCH 27/54] fix: forkal forecasts models without AR and MA terms

---
 src/emle.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/emle.c b/src/emle.c
index 936a862..47c103a 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -837,9 +837,6 @@ C*/
 	if (iq < 0) {
 		ifault = ifault + 2;
 	}
-	if (ip*ip + iq*iq == 0) {
-		ifault = 4;
-	}
 	if (id < 0) {
 		ifault = 8;
 	}
-- 
2.43.0


From b5341189423334dcf657b2baa9449216d31ceb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:44 +0000
Subject: [PATCH 28/54] fix: predict does not copy residuals that do not exist

---
 src/ctsa.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 987c4bb..14ebe7b 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -2248,7 +2248,7 @@ void arima_predict(arima_object obj,double *inp, int L,double *xpred,double *ams
 		if (d == 0) {
 			W[i] -= wmean;
 		}
-		resid[i] = obj->res[i];
+		resid[i] = 0.0;
 	}
 	for (i = 0; i < ir; ++i) {
 		phi[i] = theta[i] = 0.0;
@@ -2312,7 +2312,7 @@ void ar_predict(ar_object obj, double *inp, int L, double *xpred, double *amse)
 		if (d == 0) {
 			W[i] -= wmean;
 		}
-		resid[i] = obj->res[i];
+		resid[i] = 0.0;
 	}
 	for (i = 0; i < ir; ++i) {
 		phi[i] = theta[i] = 0.0;
@@ -2871,7 +2871,7 @@ void sarima_predict(sarima_object obj, double *inp, int L, double *xpred, double
 		if (d == 0 && D == 0) {
 			W[i] -= wmean;
 		}
-		resid[i] = obj->res[i];
+		resid[i] = 0.0;
 	}
 	for (i = 0; i < ir; ++i) {
 		phi[i] = theta[i] = 0.0;
@@ -2978,7 +2978,7 @@ void sarimax_predict(sarimax_object obj, double *inp, double *xreg, int L,double
 				W[i] -= obj->exog[j] * xreg[j*N+i];
 			}
 		}
-		resid[i] = obj->res[i];
+		resid[i] = 0.0;
 	}
 	for (i = 0; i < ir; ++i) {
 		phi[i] = theta[i] = 0.0;
@@ -3096,7 +3096,7 @@ void auto_arima_predict(auto_arima_object obj, double *inp, double *xreg, int L,
 				W[i] -= obj->exog[j] * xreg[(j-diter)*N+i];
 			}
 		}
-		resid[i] = obj->res[i];
+		resid[i] = 0.0;
 	}
 	for (i = 0; i < ir; ++i) {
 		phi[i] = theta[i] = 0.0;
@@ -3219,7 +3219,7 @@ void sarimax_wrapper_predict(sarimax_wrapper_object obj, double *inp, double *xr
 				W[i] -= obj->sarimax->exog[j] * xreg[(j-diter)*N+i];
 			}
 		}
-		resid[i] = obj->sarimax->res[i];
+		resid[i] = 0.0;
 	}
 	for (i = 0; i < ir; ++i) {
 		phi[i] = theta[i] = 0.0;
-- 
2.43.0


From 3f6ad52e547fb3873749236a1b426f0e869f0e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:44 +0000
Subject: [PATCH 29/54] fix: karma advances the index of its MA loop

---
 src/emle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emle.c b/src/emle.c
index 47c103a..3b2722d 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -771,7 +771,7 @@ void karma(int ip,int iq,double *phi,double *theta,double *A,double *P,double*V,
 				}
 			}//630
 			if (iq != 0) {//645
-				for (j = 0; j < iq; ++i) {
+				for (j = 0; j < iq; ++j) {
 					inde--;
 					if (inde == -1) {
 						inde = iq-1;
-- 
2.43.0


From b1dbfad7a3c410bb0d3f92d414df9fcea6426712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:03 +0000
Subject: [PATCH 30/54] fix: cssx clears its own coefficient vectors

---
 src/emle.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/emle.c b/src/emle.c
index 3b2722d..191b192 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -2328,13 +2328,13 @@ int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, i
 			phi[i] = 0.0;
 		}
 		for (i = 0; i < q; ++i) {
-			theta[p + i] = 0.0;
+			theta[i] = 0.0;
 		}
 		for (i = 0; i < P; ++i) {
-			PHI[p + q + i] = 0.0;
+			PHI[i] = 0.0;
 		}
 		for (i = 0; i < Q; ++i) {
-			THETA[p + q + P + i] = 0.0;
+			THETA[i] = 0.0;
 		}
 	}
 
-- 
2.43.0


From 46ccc8768a5c9e1341f3a2802651d93060cd3725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:51 +0000
Subject: [PATCH 31/54] fix: sarimax_init and auto_arima_init reject a negative
 period or regressor count

---
 src/ctsa.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 14ebe7b..264535e 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -170,7 +170,7 @@ sarimax_object sarimax_init(int p, int d, int q,int P, int D, int Q,int s, int r
 			ncxreg = 1 + r;
 		}
 	}
-	if (p < 0 || d < 0 || q < 0 || N <= 0 || P < 0 || D < 0 || Q < 0) {
+	if (p < 0 || d < 0 || q < 0 || N <= 0 || P < 0 || D < 0 || Q < 0 || s < 0 || r < 0) {
 		printf("\n Input Values cannot be Negative. Program Exiting. \n");
 		exit(-1);
 	}
@@ -252,7 +252,7 @@ auto_arima_object auto_arima_init(int *pdqmax,int *PDQmax,int s, int r, int N) {
 	}
 
 	ncxreg = r + 2;
-	if (pmax < 0 || dmax < 0 || qmax < 0 || N <= 0 || Pmax < 0 || Dmax < 0 || Qmax < 0) {
+	if (pmax < 0 || dmax < 0 || qmax < 0 || N <= 0 || Pmax < 0 || Dmax < 0 || Qmax < 0 || s < 0 || r < 0) {
 		printf("\n Input Values cannot be Negative. Program Exiting. \n");
 		exit(-1);
 	}
-- 
2.43.0


From 434d5284770793049fadbf6a0b209fb311dc18fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:49 +0000
Subject: [PATCH 32/54] fix: auto_arima1 honours the seasonal and stationary
 options

---
 src/ctsa.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 264535e..bfc5aad 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -1118,6 +1118,8 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 
 	if (seasonal == NULL) {
 		iseasonal = 1;
+	} else {
+		iseasonal = *seasonal;
 	}
 
 	if (stepwise == NULL) {
@@ -1157,7 +1159,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 
 	//mdisplay(x,1,N);
 
-	if (s <= 1) {
+	if (s <= 1 || !iseasonal) {
 		m = 1;
 	} else {
 		m = s;
@@ -1220,6 +1222,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 	}
 
 	D = DD == NULL ? -1 : *DD;
+	d = dd == NULL ? -1 : *dd;
 
 	if (istationary) {
 		d = D = 0;
@@ -1264,8 +1267,6 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 		}
 	}
 
-	d = dd == NULL ? -1 : *dd;
-
 	if (d == -1) {
 		d = ndiffs(dx,Nd,test_alpha,test,type,&d_max);
 
-- 
2.43.0


From 2b0ef1634f41f1ed64f92e719da0e85695cc2ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:49 +0000
Subject: [PATCH 33/54] fix: myarima and sarimax_wrapper estimate with the
 method they are asked for

---
 src/ctsa.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ctsa.c b/src/ctsa.c
index bfc5aad..315eca2 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -626,6 +626,7 @@ sarimax_wrapper_object sarimax_wrapper(sarimax_wrapper_object model,double *y, i
 		}
 		
 		obj->sarimax = sarimax_init(p,d,q,P,D,Q,s,rr,mean,N);
+		sarimax_setMethod(obj->sarimax,method);
 
 		sarimax_exec(obj->sarimax,x,xreg2);
 		obj->aic = obj->sarimax->aic;
@@ -736,6 +737,7 @@ myarima_object myarima(double *x, int N, int *order, int *seasonal, int constant
 		}
 		memcpy(xreg2+N,xreg,sizeof(double)*N*(rr-1));
 		fit->sarimax = sarimax_init(p,d,q,P,D,Q,s,rr,imean,N);
+		sarimax_setMethod(fit->sarimax,rmethod);
 		sarimax_exec(fit->sarimax,x,xreg2);
 		free(xreg2);
 		//sarimax_summary(fit->sarimax);
-- 
2.43.0


From 9c5ad2ff6b62a1269e64663f0e32482660f5c962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:49 +0000
Subject: [PATCH 34/54] fix: model_estimate analyses the differenced series

---
 src/ctsa.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 315eca2..16782ac 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -4202,7 +4202,9 @@ void model_estimate(double *x, int N, int d, int pmax, int h) {
 	inp = (double*)malloc(sizeof(double)* (N - d));
 
 	if (d > 0) {
-		N = diff(x, N, d, inp); // No need to demean x
+		N = diff(x, N, d, inp);
+	} else {
+		memcpy(inp, x, sizeof(double)* N);
 	}
 
 	m = h;
@@ -4210,10 +4212,10 @@ void model_estimate(double *x, int N, int d, int pmax, int h) {
 	phim = (double*)malloc(sizeof(double)* m);
 	a = (double*)malloc(sizeof(double)* N);
 
-	wmean = mean(x, N);
+	wmean = mean(inp, N);
 
 	for (i = 0; i < N; ++i) {
-		inp[i] = x[i] - wmean;
+		inp[i] -= wmean;
 	}
 
 	// Estimate AR(m) coefficients
-- 
2.43.0


From f76d174cec16018f96255b760c02354c99221b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:37 +0000
Subject: [PATCH 35/54] fix: auto_arima estimates candidates with the method
 the user selected

---
 src/ctsa.c | 56 +++++++++++++++++++++++++++++-------------------------
 1 file changed, 30 insertions(+), 26 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 16782ac..adc7179 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -929,6 +929,7 @@ myarima_object search_arima(double *x, int N,int d, int D, int p_max, int q_max,
 	int bestorder[3] = {0,0,0};
 	int bestseasonal[4] = {0,0,0,0};
 	int trace = 0;
+	int *pmethod = method ? &method : NULL; // 0 leaves the choice to myarima
 
 	
 	idrift = allowdrift && (d + D == 1);
@@ -975,7 +976,7 @@ myarima_object search_arima(double *x, int N,int d, int D, int p_max, int q_max,
 								seasonal[3] = s;
 							}
 
-							fit = myarima(x,N,order,seasonal, K, ic, trace, approximation, offset,xreg, r, NULL);
+							fit = myarima(x,N,order,seasonal, K, ic, trace, approximation, offset,xreg, r, pmethod);
 							if (verbose == 1) {
 								printf("p: %d d: %d q: %d P: %d D: %d Q: %d Drift/Mean: %d ic: %g \n",fit->sarimax->p,d,fit->sarimax->q,fit->sarimax->P,D,fit->sarimax->Q,K,fit->ic);
 							}
@@ -1000,7 +1001,7 @@ myarima_object search_arima(double *x, int N,int d, int D, int p_max, int q_max,
 
 	//printf("best_ic %g \n",best_ic);
 
-	bestfit = myarima(x,N,bestorder,bestseasonal, bestK, ic, trace, approximation, offset,xreg, r, NULL);
+	bestfit = myarima(x,N,bestorder,bestseasonal, bestK, ic, trace, approximation, offset,xreg, r, pmethod);
 
 	if (approximation) {
 		if (bestfit->ic == DBL_MAX) {
@@ -1058,6 +1059,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 	int p_start, q_start, P_start, Q_start,d,D,Nd,Ndd,amethod, iapprox,constant,Order_max;
 	int istationary, iseasonal, istepwise, models, idrift, imean, m, N3, N3m,rnk, i, is1,k;
 	double *x,*xx,*varcovar,*diffxreg,*dx,*diffdxreg,*diffdx,*results,*icvector;
+	int *pmethod;
 	reg_object reg;
 	sarimax_object approxfit;
 	myarima_object bestfit;
@@ -1154,6 +1156,8 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 		amethod = *method;
 	}
 
+	pmethod = amethod ? &amethod : NULL; // 0 leaves the choice to myarima
+
 
 	x = (double*) malloc(sizeof(double)*N);
 
@@ -1466,7 +1470,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 	trace = 0; // Make it variable
 	bestconstant = constant;
 
-	bestfit = myarima(x,N,bestorder,bestseasonalorder,bestconstant, ic, trace, iapprox, offset,xreg, r, NULL);
+	bestfit = myarima(x,N,bestorder,bestseasonalorder,bestconstant, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 	best_ic = bestfit->ic;
 
@@ -1485,7 +1489,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 	seasonalorder[2] = 0;
 	seasonalorder[3] = s;
 
-	fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+	fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 	set_results(results,2,0,d,0,0,D,0,constant,fit->myarima->ic);
 
@@ -1512,7 +1516,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 		seasonalorder[2] = 0;
 		seasonalorder[3] = s;
 
-		fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+		fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 		set_results(results,k+1,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -1542,7 +1546,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 		seasonalorder[2] = (Q_max > 0) && (m > 1);
 		seasonalorder[3] = s;
 
-		fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+		fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 		set_results(results,k+1,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -1571,7 +1575,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 		seasonalorder[2] = 0;
 		seasonalorder[3] = s;
 
-		fit->myarima = myarima(x,N,order,seasonalorder,0, ic, trace, iapprox, offset,xreg, r, NULL);
+		fit->myarima = myarima(x,N,order,seasonalorder,0, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 		set_results(results,k+1,0,d,0,0,D,0,0,fit->myarima->ic);
 
@@ -1604,7 +1608,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -1633,7 +1637,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q-1;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -1662,7 +1666,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -1691,7 +1695,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q+1;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -1720,7 +1724,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q-1;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -1750,7 +1754,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q+1;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -1780,7 +1784,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q-1;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -1810,7 +1814,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q+1;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -1842,7 +1846,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -1871,7 +1875,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -1900,7 +1904,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -1929,7 +1933,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -1958,7 +1962,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -1988,7 +1992,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -2018,7 +2022,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -2048,7 +2052,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[2] = Q;
 			seasonalorder[3] = s;
 
-			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+			fit->myarima = myarima(x,N,order,seasonalorder,constant, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 			set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],constant,fit->myarima->ic);
 
@@ -2080,7 +2084,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 				seasonalorder[2] = Q;
 				seasonalorder[3] = s;
 
-				fit->myarima = myarima(x,N,order,seasonalorder,ntconstant, ic, trace, iapprox, offset,xreg, r, NULL);
+				fit->myarima = myarima(x,N,order,seasonalorder,ntconstant, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 				set_results(results,k,order[0],order[1],order[2],seasonalorder[0],seasonalorder[1],seasonalorder[2],ntconstant,fit->myarima->ic);
 
@@ -2142,7 +2146,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[1] = D;
 			seasonalorder[2] = results[icindex[i]*8 + 5];
 			seasonalorder[3] = s;
-			fit->myarima = myarima(x,N,order,seasonalorder,results[icindex[i]*8 + 6], ic, trace, 0, offset,xreg, r, NULL);
+			fit->myarima = myarima(x,N,order,seasonalorder,results[icindex[i]*8 + 6], ic, trace, 0, offset,xreg, r, pmethod);
 
 			if (fit->myarima->ic < DBL_MAX) {
 				best_ic = fit->myarima->ic;
@@ -2167,7 +2171,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 
 	// Refit The Best Model
 
-	fit->myarima = myarima(x,N,bestorder,bestseasonalorder,bestconstant, ic, trace, iapprox, offset,xreg, r, NULL);
+	fit->myarima = myarima(x,N,bestorder,bestseasonalorder,bestconstant, ic, trace, iapprox, offset,xreg, r, pmethod);
 
 	
 
-- 
2.43.0


From 1d866f7234c22c4f19ef01ad74f8da7660f281bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 36/54] fix: the collinearity check looks at the regressors,
 one per row, as they are stored

---
 src/ctsa.c | 2 +-
 src/emle.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index adc7179..7dc118e 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -1207,7 +1207,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 	if (xreg) {
 		// Collinearity check
 
-		rnk = rank(xreg,N,r);
+		rnk = rank(xreg,r,N);
 
 		if (rnk < r) {
 			free(xx);
diff --git a/src/emle.c b/src/emle.c
index 191b192..7ce0b92 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1720,7 +1720,7 @@ int as154x(double *inp, int N, double *xreg, int optmethod, int p, int d, int q,
 			memcpy(XX,x0,sizeof(double)*N*ncxreg);
 		}
 
-		rnk = rank(XX,N,ncxreg);
+		rnk = rank(XX,ncxreg,N);
 
 		if (rnk < ncxreg) {
 			ERR = 7;
@@ -2400,7 +2400,7 @@ int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, i
 			memcpy(XX,x0,sizeof(double)*N*ncxreg);
 		}
 
-		rnk = rank(XX,N,ncxreg);
+		rnk = rank(XX,ncxreg,N);
 
 		if (rnk < ncxreg) {
 			ERR = 7;
-- 
2.43.0


From 00350515cc17e1e5507f7afcb940b9a7501da6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:22 +0000
Subject: [PATCH 37/54] fix: arima and sarima summaries name every exit status
 the estimators return

---
 src/ctsa.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ctsa.c b/src/ctsa.c
index 7dc118e..bc8f7b7 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -3292,6 +3292,12 @@ void sarima_summary(sarima_object obj) {
 		else if (obj->retval == 4) {
 			printf("Optimization Routine didn't converge");
 		}
+		else if (obj->retval == 10) {
+			printf("Nonstationary AR part");
+		}
+		else if (obj->retval == 12) {
+			printf("Nonstationary Seasonal AR part");
+		}
 		else if (obj->retval == 15) {
 			printf("Optimization Routine Encountered Inf/Nan Values");
 		}
@@ -3430,6 +3436,9 @@ void arima_summary(arima_object obj) {
 		else if (obj->retval == 4) {
 			printf("Optimization Routine didn't converge");
 		}
+		else if (obj->retval == 10) {
+			printf("Nonstationary AR part");
+		}
 		else if (obj->retval == 15) {
 			printf("Optimization Routine Encountered Inf/Nan Values");
 		}
-- 
2.43.0


From 0f28781230666360d3c6d896751b355c0d0af3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:32 +0000
Subject: [PATCH 38/54] fix: sarimax and auto_arima summaries report the exit
 status of the conditional sum of squares fit too

---
 src/ctsa.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index bc8f7b7..f8b1c4a 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -3554,7 +3554,7 @@ void sarimax_summary(sarimax_object obj) {
 	pq = obj->p + obj->q + obj->P + obj->Q + obj->M;
 	mean = obj->M - obj->r;
 	
-	if (obj->method == 0 || obj->method == 1) {
+	if (obj->method == 0 || obj->method == 1 || obj->method == 2) {
 		printf("\n\nExit Status \n");
 		printf("Return Code : %d \n", obj->retval);
 		printf("Exit Message : ");
@@ -3702,7 +3702,7 @@ void auto_arima_summary(auto_arima_object obj) {
 	pq = obj->p + obj->q + obj->P + obj->Q + obj->M;
 	mean = obj->M - obj->r;
 
-	if (obj->method == 0 || obj->method == 1) {
+	if (obj->method == 0 || obj->method == 1 || obj->method == 2) {
 		printf("\n\nExit Status \n");
 		printf("Return Code : %d \n", obj->retval);
 		printf("Exit Message : ");
@@ -3837,7 +3837,7 @@ void sarimax_wrapper_summary(sarimax_wrapper_object obj) {
 	pq = obj->sarimax->p + obj->sarimax->q + obj->sarimax->P + obj->sarimax->Q + obj->sarimax->M;
 	mean = obj->sarimax->M - obj->sarimax->r;
 	
-	if (obj->sarimax->method == 0 || obj->sarimax->method == 1) {
+	if (obj->sarimax->method == 0 || obj->sarimax->method == 1 || obj->sarimax->method == 2) {
 		printf("\n\nExit Status \n");
 		printf("Return Code : %d \n", obj->sarimax->retval);
 		printf("Exit Message : ");
@@ -3967,7 +3967,7 @@ void myarima_summary(myarima_object obj) {
 	pq = obj->sarimax->p + obj->sarimax->q + obj->sarimax->P + obj->sarimax->Q + obj->sarimax->M;
 	mean = obj->sarimax->M - obj->sarimax->r;
 	
-	if (obj->sarimax->method == 0 || obj->sarimax->method == 1) {
+	if (obj->sarimax->method == 0 || obj->sarimax->method == 1 || obj->sarimax->method == 2) {
 		printf("\n\nExit Status \n");
 		printf("Return Code : %d \n", obj->sarimax->retval);
 		printf("Exit Message : ");
-- 
2.43.0


From 0c45f2e16d130e29419a3afa3a83552e3f518c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:58 +0000
Subject: [PATCH 39/54] fix: summaries print every moving-average term of the
 equation, with its own sign

---
 src/ctsa.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index f8b1c4a..69e393b 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -3411,7 +3411,7 @@ void sarima_summary(sarima_object obj) {
 		if (obj->theta[i] > 0) {
 			printf("- %g*a[t - %d%s", fabs(obj->theta[i]), i + 1, "]");
 		}
-		else if (obj->phi[i] < 0) {
+		else if (obj->theta[i] < 0) {
 			printf("+ %g*a[t - %d%s", fabs(obj->theta[i]), i + 1, "] ");
 		}
 	}
@@ -3526,7 +3526,7 @@ void arima_summary(arima_object obj) {
 		if (obj->theta[i] > 0) {
 			printf("- %g*a[t - %d%s", fabs(obj->theta[i]), i + 1, "]");
 		}
-		else if (obj->phi[i] < 0) {
+		else if (obj->theta[i] < 0) {
 			printf("+ %g*a[t - %d%s", fabs(obj->theta[i]), i + 1, "] ");
 		}
 	}
@@ -3678,7 +3678,7 @@ void sarimax_summary(sarimax_object obj) {
 		if (obj->theta[i] > 0) {
 			printf("- %g*a[t - %d%s", fabs(obj->theta[i]), i + 1, "]");
 		}
-		else if (obj->phi[i] < 0) {
+		else if (obj->theta[i] < 0) {
 			printf("+ %g*a[t - %d%s", fabs(obj->theta[i]), i + 1, "] ");
 		}
 	}
-- 
2.43.0


From 53ea3682ef6a41e78ca835819384884ce71369a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:59 +0000
Subject: [PATCH 40/54] fix: auto_arima forecasts and summaries count the drift
 column besides the user regressors

---
 src/ctsa.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 69e393b..4d62575 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -3099,7 +3099,7 @@ void auto_arima_predict(auto_arima_object obj, double *inp, double *xreg, int L,
 			W[i] -= obj->exog[0]*(i+1);
 		}
 		if (obj->r > 0) {
-			for(j = diter; j < obj->r;++j) {
+			for(j = diter; j < obj->r + diter;++j) {
 				W[i] -= obj->exog[j] * xreg[(j-diter)*N+i];
 			}
 		}
@@ -3138,7 +3138,7 @@ void auto_arima_predict(auto_arima_object obj, double *inp, double *xreg, int L,
 		if (obj->idrift == 1) {
 			xpred[i] += obj->exog[0]*(i+1+N);
 		}
-		for(j = diter; j < obj->r;++j) {
+		for(j = diter; j < obj->r + diter;++j) {
 			xpred[i] += obj->exog[j] * newxreg[(j - diter)*L+i];
 		}
 	}
@@ -3700,7 +3700,7 @@ void sarimax_summary(sarimax_object obj) {
 void auto_arima_summary(auto_arima_object obj) {
 	int i, pq,t,ncxreg,mean,drift;
 	pq = obj->p + obj->q + obj->P + obj->Q + obj->M;
-	mean = obj->M - obj->r;
+	mean = obj->M - obj->r - (obj->idrift == 1 ? 1 : 0);
 
 	if (obj->method == 0 || obj->method == 1 || obj->method == 2) {
 		printf("\n\nExit Status \n");
@@ -3769,7 +3769,7 @@ void auto_arima_summary(auto_arima_object obj) {
 	} else {
 		printf("%-17s%-20g \n", "TREND", 0.0);
 	}
-	for(i = ncxreg; i < obj->r; ++i) {
+	for(i = ncxreg; i < obj->r + ncxreg; ++i) {
 		printf("%-17s%-20g%-20g \n", "EXOG", obj->exog[i], sqrt(obj->vcov[t + pq * t]));
 		t++;
 	}
-- 
2.43.0


From 1b0a706b84cd77304bf14ebb701f7e9086e3842b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:38 +0000
Subject: [PATCH 41/54] fix: a second auto_arima_exec on the same object still
 considers drift models

---
 header/ctsa.h | 1 +
 src/ctsa.c    | 5 +++--
 src/ctsa.h    | 1 +
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/header/ctsa.h b/header/ctsa.h
index 58fa9f2..3a9255c 100644
--- a/header/ctsa.h
+++ b/header/ctsa.h
@@ -54,6 +54,7 @@ struct auto_arima_set{
 	int start;
 	int imean;
 	int idrift;
+	int allowdrift;// drift candidates allowed (auto_arima_allowDrift)
 	int stationary;
 	int seasonal;
 	int Order_max;
diff --git a/src/ctsa.c b/src/ctsa.c
index 4d62575..23b6472 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -307,6 +307,7 @@ auto_arima_object auto_arima_init(int *pdqmax,int *PDQmax,int s, int r, int N) {
 	obj->alpha_seas = 0.05;
 	obj->imean = 1;
 	obj->idrift = 1;
+	obj->allowdrift = 1;
 
 	strcpy(obj->test,"kpss");
 	strcpy(obj->seas,"seas");
@@ -427,7 +428,7 @@ void auto_arima_exec(auto_arima_object obj, double *inp,double *xreg) {
 
 	fit = auto_arima1(inp,obj->N,order,seasonal,&obj->Order_max,obj->s,NULL,NULL,start,&obj->stationary,&obj->seasonal, obj->information_criteria,
 	 &obj->stepwise,&obj->num_models,&obj->approximation,&obj->method,xreg,obj->r,obj->test,obj->type, &obj->alpha_test,obj->seas, &obj->alpha_seas,
-	 &obj->idrift, &obj->imean,obj->verbose, NULL);
+	 &obj->allowdrift, &obj->imean,obj->verbose, NULL);
 
 	imean = obj->imean;
 	idrift = obj->idrift;
@@ -2805,7 +2806,7 @@ void auto_arima_allowMean(auto_arima_object obj, int allowmean) {
 
 void auto_arima_allowDrift(auto_arima_object obj, int allowdrift) {
 	if (allowdrift == 0 || allowdrift == 1) {
-		obj->idrift = allowdrift;
+		obj->allowdrift = allowdrift;
 	} else {
 		printf("Allowdrift parameter accepts only two values - 0 or 1 \n");
 	}
diff --git a/src/ctsa.h b/src/ctsa.h
index c485a9f..b4aea85 100644
--- a/src/ctsa.h
+++ b/src/ctsa.h
@@ -181,6 +181,7 @@ struct auto_arima_set{
 	int start;
 	int imean;
 	int idrift;
+	int allowdrift;// drift candidates allowed (auto_arima_allowDrift)
 	int stationary;
 	int seasonal;
 	int Order_max;
-- 
2.43.0


From 4276a15eaf27f66e57e94d50c6ec1a93d088c7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:05 +0000
Subject: [PATCH 42/54] fix: a NaN or overflow at the starting point is
 reported as status 15, not as a successful stop

---
 src/newtonmin.c |  8 ++++----
 src/secant.c    | 16 ++++++++--------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/newtonmin.c b/src/newtonmin.c
index 6943d1e..a630b5d 100644
--- a/src/newtonmin.c
+++ b/src/newtonmin.c
@@ -1346,8 +1346,8 @@ int newton_min_func(custom_function *funcpt, custom_gradient *funcgrad, double *
 	
 	stop0 = array_max_abs(scheck,N);
 	
-	if (stop0 <= gtol * 1e-03) {
-		rcode = 1;
+	if (rcode != 0 || stop0 <= gtol * 1e-03) {
+		if (rcode == 0) rcode = 1;
 		for(i = 0; i < N;++i) {
 			xf[i] = xi[i];
 		}
@@ -1867,8 +1867,8 @@ int newton_min_trust(custom_function *funcpt, custom_gradient *funcgrad, double
 	
 	stop0 = array_max_abs(scheck,N);
 	
-	if (stop0 <= gtol * 1e-03) {
-		rcode = 1;
+	if (rcode != 0 || stop0 <= gtol * 1e-03) {
+		if (rcode == 0) rcode = 1;
 		for(i = 0; i < N;++i) {
 			xf[i] = xi[i];
 		}
diff --git a/src/secant.c b/src/secant.c
index 6a0723b..78c3b6c 100644
--- a/src/secant.c
+++ b/src/secant.c
@@ -247,8 +247,8 @@ int bfgs_min_naive(custom_function *funcpt, custom_gradient *funcgrad, double *x
 	
 	stop0 = array_max_abs(scheck,N);
 	
-	if (stop0 <= gtol * 1e-03) {
-		rcode = 1;
+	if (rcode != 0 || stop0 <= gtol * 1e-03) {
+		if (rcode == 0) rcode = 1;
 		for(i = 0; i < N;++i) {
 			xf[i] = xi[i];
 		}
@@ -516,8 +516,8 @@ int bfgs_min(custom_function *funcpt, custom_gradient *funcgrad, double *xi, int
 	
 	stop0 = array_max_abs(scheck,N);
 	
-	if (stop0 <= gtol * 1e-03) {
-		rcode = 1;
+	if (rcode != 0 || stop0 <= gtol * 1e-03) {
+		if (rcode == 0) rcode = 1;
 		for(i = 0; i < N;++i) {
 			xf[i] = xi[i];
 		}
@@ -687,8 +687,8 @@ int bfgs_min2(custom_function *funcpt, custom_gradient *funcgrad, double *xi, in
 
 	stop0 = array_max_abs(scheck, N);
 
-	if (stop0 <= gtol * 1e-03) {
-		rcode = 1;
+	if (rcode != 0 || stop0 <= gtol * 1e-03) {
+		if (rcode == 0) rcode = 1;
 		for (i = 0; i < N; ++i) {
 			xf[i] = xi[i];
 		}
@@ -960,8 +960,8 @@ int bfgs_l_min(custom_function *funcpt, custom_gradient *funcgrad, double *xi, i
 
 	stop0 = array_max_abs(scheck,N);
 
-	if (stop0 <= gtol * 1e-03) {
-		rcode = 1;
+	if (rcode != 0 || stop0 <= gtol * 1e-03) {
+		if (rcode == 0) rcode = 1;
 		for(i = 0; i < N;++i) {
 			xf[i] = xi[i];
 		}
-- 
2.43.0


From 464f2eded1d765286670507af24dfd84c16a0f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 43/54] fix: Box-Jenkins estimation without parameters reads
 past its zero-length arrays

---
 src/boxjenkins.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/boxjenkins.c b/src/boxjenkins.c
index a94e58d..4d8f146 100644
--- a/src/boxjenkins.c
+++ b/src/boxjenkins.c
@@ -759,7 +759,14 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 		D[i] = sqrt(A[i*k+i]);
 	}
 
-	tau = array_max(D,k);
+	if (k == 0) {
+		// no parameters to iterate on
+		it = 1;
+		hmax = 0.0;
+		sumb = sosqm(at, N + qd - 1);
+	} else {
+		tau = array_max(D, k);
+	}
 	//printf("TAU %g \n",tau);
 	//mdisplay(x,k,N+qd-1);
 
@@ -1306,7 +1313,14 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 		D[i] = sqrt(A[i*k + i]);
 	}
 
-	tau = array_max(D, k);
+	if (k == 0) {
+		// no parameters to iterate on
+		it = 1;
+		hmax = 0.0;
+		sumb = sosqm(at, N + qd - 1);
+	} else {
+		tau = array_max(D, k);
+	}
 
 	//printf("TAUMAX %g \n", tau);
 
-- 
2.43.0


From e155ac0edab84bd82b17d05b6ad1fdcabe03a7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 44/54] fix: burgalg is given the number of samples (it reads
 outside its work arrays at the highest orders)

---
 src/ctsa.c    | 8 ++++----
 src/initest.c | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 23b6472..e14c562 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -2211,7 +2211,7 @@ void ar_exec(ar_object obj, double *inp) {
 	}
 	else if (obj->method == 1) {
 		obj->mean = mean(inp, N);
-		burgalg(inp, N - 1, p, obj->params, &obj->var);
+		burgalg(inp, N, p, obj->params, &obj->var);
 	}
 
 	obj->order = obj->p;
@@ -2362,7 +2362,7 @@ void ar(double *inp, int N, int p,int method,double *phi,double *var) {
 		ywalg2(inp, N, p, phi,var);
 	}
 	else if (method == 1) {
-		burgalg(inp, N - 1, p, phi, var);
+		burgalg(inp, N, p, phi, var);
 	}
 	else if (method == 2) {
 		resid = (double*)malloc(sizeof(double)* N);
@@ -4134,7 +4134,7 @@ int ar_estimate(double *x, int N, int method) {
 			ywalg2(inp, N, i + 1, phi, &var);
 		}
 		else if (method == 1) {
-			burgalg(inp, N-1, i + 1, phi, &var);
+			burgalg(inp, N, i + 1, phi, &var);
 		}
 		else if (method == 2) {
 			as154(inp, N, 7, i + 1, 0, 0, phi, NULL, &wmean, &var, resid, &loglik, hess,cssml);
@@ -4426,7 +4426,7 @@ void yw(double *x, int N, int p, double *phi, double *var) {
 }
 
 void burg(double *x, int N, int p, double *phi, double *var) {
-	burgalg(x, N-1, p, phi, var);
+	burgalg(x, N, p, phi, var);
 }
 
 void hr(double *x, int N, int p, int q, double *phi, double *theta, double *var) {
diff --git a/src/initest.c b/src/initest.c
index 068523b..27370bd 100644
--- a/src/initest.c
+++ b/src/initest.c
@@ -437,7 +437,7 @@ void pacf_burg(double* vec, int N, double* par, int M) {
 
 	temp = (double*)malloc(sizeof(double)* M);
 	for (i = 0; i < M; ++i) {
-		burgalg(vec, N-1, i + 1, temp, &var);
+		burgalg(vec, N, i + 1, temp, &var);
 		par[i] = temp[i];
 	}
 	free(temp);
-- 
2.43.0


From bf27349d53039f330aacf0df502608b249f318ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:47 +0000
Subject: [PATCH 45/54] fix: conditional sum of squares leaves the last d
 residuals unset (N is the differenced length already)

---
 src/emle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emle.c b/src/emle.c
index 7ce0b92..33f0d2c 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1348,7 +1348,7 @@ int css(double *inp, int N, int optmethod, int p, int d, int q, double *phi, dou
 	}
 	*/
 	*var = (obj->ssq) / (double)N;
-	for (i = 0; i < N - d; ++i) {
+	for (i = 0; i < N; ++i) {
 		resid[i] = obj->x[N+i];
 	}
 	*loglik = obj->loglik;
-- 
2.43.0


From c68bc84c705c662f0e79029e1001bd2e397cbd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:47 +0000
Subject: [PATCH 46/54] fix: ar_exec stores the residuals where the object says
 they are

---
 src/ctsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index e14c562..d2e23e9 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -2199,7 +2199,7 @@ void ar_exec(ar_object obj, double *inp) {
 
 	if (obj->method == 2) {
 		hess = (double*)malloc(sizeof(double)* (p + 1) * (p + 1));
-		obj->retval = as154(inp, obj->N, obj->optmethod, obj->p, 0, 0 , obj->params, NULL, &obj->mean, &obj->var, obj->params + p, &loglik,
+		obj->retval = as154(inp, obj->N, obj->optmethod, obj->p, 0, 0 , obj->params, NULL, &obj->mean, &obj->var, obj->res, &loglik,
 			hess,cssml);
 		loglik = -0.5 * (N * (2 * loglik + 1.0 + log(2 * 3.14159)));
 		obj->aic = -2.0 * loglik + 2.0 * (obj->p + 1) + 2.0;
-- 
2.43.0


From d70f21f65b7f831978c97f3972cfde338e929aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:52 +0000
Subject: [PATCH 47/54] fix: seasonal and conditional-sum-of-squares
 estimations fill in the residuals

---
 src/ctsa.c |  6 +++---
 src/emle.c | 19 ++++++++++++++-----
 src/emle.h |  6 +++---
 3 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index d2e23e9..5f51fa2 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -397,7 +397,7 @@ void sarimax_exec(sarimax_object obj, double *inp,double *xreg)  {
 		obj->aic = -2.0 * obj->loglik + 2.0 * (obj->p + obj->q + obj->P + obj->Q + obj->M) + 2.0;
 	} else if (obj->method == 2) {
 		obj->retval = cssx(inp, obj->N, xreg, obj->optmethod, obj->p, obj->d, obj->q, obj->s, obj->P, obj->D, obj->Q, obj->params, obj->params + p, obj->params + p + q, 
-			obj->params + p + q + P,obj->params + p + q + P + Q, obj->r, &obj->mean, &obj->var,&obj->loglik, obj->params + p + q + P + Q + M + N - d - s*D,obj->start,
+			obj->params + p + q + P,obj->params + p + q + P + Q, obj->r, &obj->mean, &obj->var,obj->params + p + q + P + Q + M,&obj->loglik, obj->params + p + q + P + Q + M + N - d - s*D,obj->start,
 			obj->imean);
 		//mdisplay(obj->vcov,p+q+P+Q+M,p+q+P+Q+M);
 		obj->loglik = -0.5 * (obj->Nused * (2 * obj->loglik + 1.0 + log(2 * 3.14159)));
@@ -544,13 +544,13 @@ void sarima_exec(sarima_object obj, double *inp) {
 
 	if (obj->method == 0) {
 		obj->retval = as154_seas(inp, obj->N, obj->optmethod, obj->p, obj->d, obj->q, obj->s, obj->P, obj->D, obj->Q, obj->params, obj->params + p, obj->params + p + q, 
-			obj->params + p + q + P, &obj->mean, &obj->var, &obj->loglik, obj->params + p + q + P + Q + N - d - s*D,obj->cssml);
+			obj->params + p + q + P, &obj->mean, &obj->var, obj->params + p + q + P + Q, &obj->loglik, obj->params + p + q + P + Q + N - d - s*D,obj->cssml);
 		obj->loglik = -0.5 * (obj->Nused * (2 * obj->loglik + 1.0 + log(2 * 3.14159)));
 		obj->aic = -2.0 * obj->loglik + 2.0 * (obj->p + obj->q + obj->P + obj->Q + obj->M) + 2.0;
 	}
 	else if (obj->method == 1) {
 		obj->retval = css_seas(inp, obj->N, obj->optmethod, obj->p, obj->d, obj->q, obj->s, obj->P, obj->D, obj->Q, obj->params, obj->params + p, obj->params + p + q,
-			obj->params + p + q + P, &obj->mean, &obj->var, &obj->loglik, obj->params + p + q + P + Q + N - d - s*D);
+			obj->params + p + q + P, &obj->mean, &obj->var, obj->params + p + q + P + Q, &obj->loglik, obj->params + p + q + P + Q + N - d - s*D);
 		obj->loglik = -0.5 * (obj->Nused * (2 * obj->loglik + 1.0 + log(2 * 3.14159)));
 	}
 	else if (obj->method == 2) {
diff --git a/src/emle.c b/src/emle.c
index 33f0d2c..ebdaae9 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1641,7 +1641,7 @@ int as154x(double *inp, int N, double *xreg, int optmethod, int p, int d, int q,
 	nd = d + D;
 
 	if (cssml == 1) {
-		ERR = cssx(inp, N, xreg, optmethod, p, d, q, s, P, D, Q, phi, theta, PHI, THETA,exog,r, wmean, var, loglik, hess,start,imean);
+		ERR = cssx(inp, N, xreg, optmethod, p, d, q, s, P, D, Q, phi, theta, PHI, THETA,exog,r, wmean, var, resid, loglik, hess,start,imean);
 
 		if ( ERR != 1) return ERR;
 
@@ -2032,7 +2032,7 @@ double fcss_seas(double *b, int pq, void *params) {
 }
 
 int css_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int P, int D, int Q,
-	double *phi, double *theta, double *PHI, double *THETA, double *wmean, double *var,double *loglik,double *hess) {
+	double *phi, double *theta, double *PHI, double *THETA, double *wmean, double *var,double *resid,double *loglik,double *hess) {
 	int i, pq, retval, length, offset,ret;
 	double *b, *tf, *x, *inp2,*dx,*thess;
 	int *ipiv;
@@ -2173,6 +2173,9 @@ int css_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int
 	}*/
 
 	*var = (obj->ssq) / (double)N;
+	for (i = 0; i < N; ++i) {
+		resid[i] = obj->x[offset + N + i];
+	}
 	*loglik = obj->loglik;
 	//printf("MEAN %g \n", mean(obj->x+N,N));
 	//mdisplay(obj->x + N, 1, N);
@@ -2306,7 +2309,7 @@ double fcssx(double *b, int pq, void *params) {
 }
 
 int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, int s, int P, int D, int Q,
-	double *phi, double *theta, double *PHI, double *THETA,  double *exog, int r, double *wmean, double *var,double *loglik,double *hess,int start,int imean) {
+	double *phi, double *theta, double *PHI, double *THETA,  double *exog, int r, double *wmean, double *var,double *resid,double *loglik,double *hess,int start,int imean) {
 	int i, pq, retval, length, offset,ret,nd,ncxreg,N1,rnk,orig,ERR;
 	double *b, *tf, *x, *inp2,*dx,*thess,*x0,*XX,*U,*V,*SIG,*coeff,*sigma,*varcovar,*res;
 	int *ipiv;
@@ -2566,6 +2569,9 @@ int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, i
 
 	*var = (obj->ssq) / (double) obj->Nmncond;
 	//*var = (obj->ssq) / (double) N;
+	for (i = 0; i < N; ++i) {
+		resid[i] = obj->x[offset + N + i];
+	}
 	*loglik = obj->loglik;
 	
 	free(b);
@@ -2688,7 +2694,7 @@ double fas154_seas(double *b, int pq, void *params) {
 }
 
 int as154_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int P, int D, int Q,double *phi, double *theta, 
-	double *PHI, double *THETA, double *wmean,double *var,double *loglik,double *hess,int cssml) {
+	double *PHI, double *THETA, double *wmean,double *var,double *resid,double *loglik,double *hess,int cssml) {
 	int i, pq, retval, length, offset,ret,nd,rp,ERR;
 	double *b, *tf, *x,*inp2,*dx,*thess,*res,*varcovar;
 	int *ipiv;
@@ -2707,7 +2713,7 @@ int as154_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, in
 	sigma = 1.0;
 
 	if (cssml == 1) {
-		css_seas(inp, N, optmethod, p, d, q, s, P, D, Q, phi, theta, PHI, THETA, wmean, var, loglik, hess);
+		css_seas(inp, N, optmethod, p, d, q, s, P, D, Q, phi, theta, PHI, THETA, wmean, var, resid, loglik, hess);
 
 		ERR = checkroots_cerr(phi, &p, theta, &q, PHI, &P, THETA, &Q);
 		if (ERR == 10 || ERR == 12) {
@@ -2884,6 +2890,9 @@ int as154_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, in
 	}
 
 	*var = (obj->ssq) / (double) N;
+	for (i = 0; i < N; ++i) {
+		resid[i] = obj->x[offset + N + i];
+	}
 	*loglik = obj->loglik;
 	//printf("MEAN %g \n", mean(obj->x+N,N));
 	//mdisplay(obj->x + N, 1, N);
diff --git a/src/emle.h b/src/emle.h
index 9f9d2f3..4d114a0 100644
--- a/src/emle.h
+++ b/src/emle.h
@@ -174,12 +174,12 @@ int css(double *inp, int N, int optmethod, int p, int d, int q, double *phi, dou
 double fcss_seas(double *b, int pq, void *params);
 
 int css_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int P, int D, int Q,
-	double *phi, double *theta, double *PHI, double *THETA, double *wmean, double *var,double *loglik,double *hess);
+	double *phi, double *theta, double *PHI, double *THETA, double *wmean, double *var,double *resid,double *loglik,double *hess);
 
 double fcssx(double *b, int pq, void *params);
 
 int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, int s, int P, int D, int Q,
-	double *phi, double *theta, double *PHI, double *THETA,  double *exog, int r, double *wmean, double *var,double *loglik,double *hess,int start,int imean);
+	double *phi, double *theta, double *PHI, double *THETA,  double *exog, int r, double *wmean, double *var,double *resid,double *loglik,double *hess,int start,int imean);
 
 double fas154(double *x, int N, void *params);
 
@@ -195,7 +195,7 @@ double fas154_seas(double *b, int pq, void *params);
 void checkroots(double *phi, int *p, double *theta, int *q, double *PHI, int *P, double *THETA, int *Q);
 
 int as154_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int P, int D, int Q,double *phi, double *theta, 
-	double *PHI, double *THETA, double *wmean, double *var, double *loglik, double *hess, int cssml);
+	double *PHI, double *THETA, double *wmean, double *var, double *resid, double *loglik, double *hess, int cssml);
 
 int flikam(double *P, int MP, double *Q, int MQ, double *W, double *E, int N, double *ssq, double *fact, double *VW, double *VL, int MRP1, double *VK, int MR, double TOLER);
 
-- 
2.43.0


From fce16681a0edb509d7ee10afaa9084dbddede2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:52 +0000
Subject: [PATCH 48/54] fix: scale the conditional-sum-of-squares Hessian by
 the length of the differenced series once

---
 src/emle.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/emle.c b/src/emle.c
index ebdaae9..9453b9b 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1316,7 +1316,7 @@ int css(double *inp, int N, int optmethod, int p, int d, int q, double *phi, dou
 	mtranspose(hess, pq, pq, thess);
 
 	for (i = 0; i < pq*pq; ++i) {
-		thess[i] = (N - d) * 0.5 * (hess[i] + thess[i]);
+		thess[i] = N * 0.5 * (hess[i] + thess[i]);
 	}
 
 
@@ -2139,7 +2139,7 @@ int css_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int
 	mtranspose(hess, pq, pq, thess);
 
 	for (i = 0; i < pq*pq; ++i) {
-		thess[i] = (N - d - s*D) * 0.5 * (hess[i] + thess[i]);
+		thess[i] = N * 0.5 * (hess[i] + thess[i]);
 	}
 
 
@@ -2527,7 +2527,7 @@ int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, i
 	mtranspose(hess, pq, pq, thess);
 
 	for (i = 0; i < pq*pq; ++i) {
-		thess[i] = (N - d - s*D) * 0.5 * (hess[i] + thess[i]);
+		thess[i] = N * 0.5 * (hess[i] + thess[i]);
 	}
 
 
-- 
2.43.0


From 2f5e2567ed215b2881387cc9a70619dd1b023bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:52 +0000
Subject: [PATCH 49/54] fix: report likelihood, variance and residuals at the
 estimate, not at the last Hessian step

---
 src/emle.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/emle.c b/src/emle.c
index 9453b9b..6fb514f 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1312,6 +1312,7 @@ int css(double *inp, int N, int optmethod, int p, int d, int q, double *phi, dou
 	}
 
 	hessian_fd(&fcss_min, tf, pq, dx, obj->eps, hess);
+	fcss(tf, pq, obj);
 	//mdisplay(hess, pq, pq);
 	mtranspose(hess, pq, pq, thess);
 
@@ -1577,6 +1578,7 @@ int as154(double *inp, int N, int optmethod, int p, int d, int q, double *phi, d
 	}
 
 	hessian_fd(&as154_min, tf, pq, dx, obj->eps, hess);
+	fas154(tf, pq, obj);
 	
 	mtranspose(hess, pq, pq, thess);
 
@@ -1860,6 +1862,7 @@ int as154x(double *inp, int N, double *xreg, int optmethod, int p, int d, int q,
 	}
 
 	hessian_fd(&as154_min, tf, pq, dx, obj->eps, hess);
+	fas154x_seas(tf, pq, obj);
 	
 	mtranspose(hess, pq, pq, thess);
 	
@@ -2135,6 +2138,7 @@ int css_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int
 	}
 
 	hessian_fd(&css_min, tf, pq, dx, obj->eps, hess);
+	fcss_seas(tf, pq, obj);
 
 	mtranspose(hess, pq, pq, thess);
 
@@ -2523,6 +2527,7 @@ int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, i
 	
 
 	hessian_fd(&css_min, tf, pq, dx, obj->eps, hess);
+	fcssx(tf, pq, obj);
 
 	mtranspose(hess, pq, pq, thess);
 
@@ -2854,6 +2859,7 @@ int as154_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, in
 	//if (obj->M == 1) dx[pq - 1] = sigma;
 
 	hessian_fd(&as154_min, tf, pq, dx, obj->eps, hess);
+	fas154_seas(tf, pq, obj);
 
 	mtranspose(hess, pq, pq, thess);
 
-- 
2.43.0


From aecc964f941b894d81d47b4ef4e442b75bafc47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:52 +0000
Subject: [PATCH 50/54] fix: test the moving-average roots of a candidate
 whenever it has a moving-average part

---
 src/ctsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 5f51fa2..04c6540 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -869,7 +869,7 @@ myarima_object myarima(double *x, int N, int *order, int *seasonal, int constant
 
 		//printf(" q Q %d \n", q+Q);
 
-		if (q + Q > 1 && fit->ic < DBL_MAX) {
+		if (q + Q > 0 && fit->ic < DBL_MAX) {
 			isum = 0;
 			imx = -1;
 			for(i = 0; i < iq - 1; ++i) {
-- 
2.43.0


From 0add19212f7e1581fd203cdc0859428667bd1619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:52 +0000
Subject: [PATCH 51/54] fix: the exhaustive search honours the setting of the
 mean

---
 src/ctsa.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 04c6540..6ae9a1e 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -1434,8 +1434,6 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 		fit->otype = 1;
 		fit->Arima = NULL;
 
-		imean = 1;
-	
 		fit->myarima = search_arima(x,N,d,D,p_max,q_max,P_max,Q_max,Order_max,istationary,s,ic,iapprox,xreg,r,offset,idrift,imean,verbose,amethod);
 		free(x);
 		free(xx);
-- 
2.43.0


From d372fe2712ec3be56343ece5b43ca0856c3b5c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:52 +0000
Subject: [PATCH 52/54] fix: the exhaustive search returns an exactly estimated
 model after an approximate search

---
 src/ctsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 6ae9a1e..b5828f5 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -1002,7 +1002,7 @@ myarima_object search_arima(double *x, int N,int d, int D, int p_max, int q_max,
 
 	//printf("best_ic %g \n",best_ic);
 
-	bestfit = myarima(x,N,bestorder,bestseasonal, bestK, ic, trace, approximation, offset,xreg, r, pmethod);
+	bestfit = myarima(x,N,bestorder,bestseasonal, bestK, ic, trace, 0, offset,xreg, r, pmethod);
 
 	if (approximation) {
 		if (bestfit->ic == DBL_MAX) {
-- 
2.43.0


From cf680c1a6b401c282cf3e1f9c3d5a98ba74ac374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:48 +0000
Subject: [PATCH 53/54] fix: stationary wavelet transform never ended for
 filters longer than the signal

---
 src/wtmath.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/wtmath.c b/src/wtmath.c
index 6566ea8..c46830d 100644
--- a/src/wtmath.c
+++ b/src/wtmath.c
@@ -139,16 +139,12 @@ void swt_per_stride(int M, double *inp, int N, double *lpd, double*hpd, int lpd_
 	isodd = N % 2;
 
 	for (i = 0; i < len_cA; ++i) {
-		t = i + l2;
+		t = (i + l2) % len_cA;
 		os = i *ostride;
 		cA[os] = 0.0;
 		cD[os] = 0.0;
-		l = -1;
-		for (j = 0; j < len_avg; j += M) {
-			l++;
-			while (j >= len_cA) {
-				j -= len_cA;
-			}
+		for (l = 0; l < lpd_len; ++l) {
+			j = (l * M) % len_cA;
 			if ((t - j) >= l2 && (t - j) < N) {
 				is = (t - j)*istride;
 				cA[os] += lpd[l] * inp[is];
-- 
2.43.0


From b3d591fff593a7ff88a6629c2ba9520922c356b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:48 +0000
Subject: [PATCH 54/54] fix: details of the MODWT multiresolution were computed
 with the low-pass filter

---
 src/wavelib.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wavelib.c b/src/wavelib.c
index cddc3cb..32f0b47 100644
--- a/src/wavelib.c
+++ b/src/wavelib.c
@@ -2738,10 +2738,10 @@ double* getMODWTmra(wt_object wt, double *wavecoeffs) {
 			ninp[i].im = 0.0;
 		}
 
-		getMODWTRecCoeff(fft_fd, fft_bd, sig, ninp,cA, cD, index, "det", J-iter, J, low_pass, high_pass, N);
+		getMODWTRecCoeff(fft_fd, fft_bd, ninp, sig,cA, cD, index, "det", J-iter, J, low_pass, high_pass, N);
 
 		for (i = 0; i < wt->siglength; ++i) {
-			mra[lmra+i] = sig[i].re;
+			mra[lmra+i] = ninp[i].re;
 		}
 
 		lenacc += N;
-- 
2.43.0

