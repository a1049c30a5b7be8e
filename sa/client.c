/* Client programs of the public API, written against the installed header only.  They are compiled to IR and
   analysed together with the library; they are never executed.  Each shows one legal way of using one object. */
#include <stdlib.h>
#include "ctsa.h"

void client_arima(int p, int d, int q, int N, int method, int opt, double *x, int L, double *xp, double *am, double *vc) {
	arima_object o = arima_init(p, d, q, N);
	arima_setMethod(o, method);
	arima_setOptMethod(o, opt);
	arima_exec(o, x);
	arima_vcov(o, vc);
	arima_predict(o, x, L, xp, am);
	arima_summary(o);
	arima_free(o);
}

void client_arima_default(int p, int d, int q, int N, double *x, int L, double *xp, double *am) {
	arima_object o = arima_init(p, d, q, N);
	arima_exec(o, x);
	arima_summary(o);
	arima_predict(o, x, L, xp, am);
	arima_free(o);
}

void client_arima_again(int p, int d, int q, int N, int method, double *x, double *y, int L, double *xp, double *am) {
	arima_object o = arima_init(p, d, q, N);
	arima_exec(o, x);
	arima_setMethod(o, method);
	arima_exec(o, y);
	arima_predict(o, y, L, xp, am);
	arima_summary(o);
	arima_free(o);
}

void client_arima_unused(int p, int d, int q, int N) {
	arima_object o = arima_init(p, d, q, N);
	arima_free(o);
}

void client_sarima(int p, int d, int q, int s, int P, int D, int Q, int N, int method, int opt, double *x, int L, double *xp,
                   double *am, double *vc) {
	sarima_object o = sarima_init(p, d, q, s, P, D, Q, N);
	sarima_setMethod(o, method);
	sarima_setOptMethod(o, opt);
	sarima_exec(o, x);
	sarima_vcov(o, vc);
	sarima_predict(o, x, L, xp, am);
	sarima_summary(o);
	sarima_free(o);
}

void client_sarima_default(int p, int d, int q, int s, int P, int D, int Q, int N, double *x, int L, double *xp, double *am) {
	sarima_object o = sarima_init(p, d, q, s, P, D, Q, N);
	sarima_exec(o, x);
	sarima_summary(o);
	sarima_predict(o, x, L, xp, am);
	sarima_free(o);
}

void client_sarima_again(int p, int d, int q, int s, int P, int D, int Q, int N, int method, double *x, double *y, int L,
                         double *xp, double *am) {
	sarima_object o = sarima_init(p, d, q, s, P, D, Q, N);
	sarima_exec(o, x);
	sarima_setMethod(o, method);
	sarima_exec(o, y);
	sarima_predict(o, y, L, xp, am);
	sarima_summary(o);
	sarima_free(o);
}

void client_sarima_unused(int p, int d, int q, int s, int P, int D, int Q, int N) {
	sarima_object o = sarima_init(p, d, q, s, P, D, Q, N);
	sarima_free(o);
}

void client_sarimax(int p, int d, int q, int P, int D, int Q, int s, int r, int imean, int N, int method, int opt, double *x,
                    double *xreg, int L, double *nx, double *xp, double *am, double *vc) {
	sarimax_object o = sarimax_init(p, d, q, P, D, Q, s, r, imean, N);
	sarimax_setMethod(o, method);
	sarimax_setOptMethod(o, opt);
	sarimax_exec(o, x, xreg);
	sarimax_vcov(o, vc);
	sarimax_predict(o, x, xreg, L, nx, xp, am);
	sarimax_summary(o);
	sarimax_free(o);
}

void client_sarimax_noreg(int p, int d, int q, int P, int D, int Q, int s, int imean, int N, double *x, int L, double *xp,
                          double *am) {
	sarimax_object o = sarimax_init(p, d, q, P, D, Q, s, 0, imean, N);
	sarimax_exec(o, x, NULL);
	sarimax_summary(o);
	sarimax_predict(o, x, NULL, L, NULL, xp, am);
	sarimax_free(o);
}

void client_sarimax_again(int p, int d, int q, int P, int D, int Q, int s, int r, int imean, int N, int method, double *x,
                          double *y, double *xreg, int L, double *nx, double *xp, double *am) {
	sarimax_object o = sarimax_init(p, d, q, P, D, Q, s, r, imean, N);
	sarimax_exec(o, x, xreg);
	sarimax_setMethod(o, method);
	sarimax_exec(o, y, xreg);
	sarimax_predict(o, y, xreg, L, nx, xp, am);
	sarimax_summary(o);
	sarimax_free(o);
}

void client_sarimax_unused(int p, int d, int q, int P, int D, int Q, int s, int r, int imean, int N) {
	sarimax_object o = sarimax_init(p, d, q, P, D, Q, s, r, imean, N);
	sarimax_free(o);
}

void client_auto_arima(int *pdq, int *PDQ, int s, int r, int N, double *x, double *xreg, int L, double *nx, double *xp, double *am,
                       int approx, int stepwise, int stationary, int seasonal, int verbose, int method, int opt,
                       const char *test, const char *type, const char *seas, double a, double b) {
	auto_arima_object o = auto_arima_init(pdq, PDQ, s, r, N);
	auto_arima_setApproximation(o, approx);
	auto_arima_setStepwise(o, stepwise);
	auto_arima_setStationary(o, stationary);
	auto_arima_setSeasonal(o, seasonal);
	auto_arima_setMethod(o, method);
	auto_arima_setOptMethod(o, opt);
	auto_arima_setVerbose(o, verbose);
	auto_arima_setStationarityParameters(o, test, a, type);
	auto_arima_setSeasonalParameters(o, seas, b);
	auto_arima_exec(o, x, xreg);
	auto_arima_predict(o, x, xreg, L, nx, xp, am);
	auto_arima_summary(o);
	auto_arima_free(o);
}

void client_auto_arima_default(int s, int N, double *x, int L, double *xp, double *am) {
	auto_arima_object o = auto_arima_init(NULL, NULL, s, 0, N);
	auto_arima_exec(o, x, NULL);
	auto_arima_summary(o);
	auto_arima_predict(o, x, NULL, L, NULL, xp, am);
	auto_arima_free(o);
}

void client_auto_arima_again(int s, int r, int N, int stepwise, double *x, double *y, double *xreg, int L, double *nx, double *xp,
                             double *am) {
	auto_arima_object o = auto_arima_init(NULL, NULL, s, r, N);
	auto_arima_exec(o, x, xreg);
	auto_arima_setStepwise(o, stepwise);
	auto_arima_exec(o, y, xreg);
	auto_arima_predict(o, y, xreg, L, nx, xp, am);
	auto_arima_summary(o);
	auto_arima_free(o);
}

void client_auto_arima_unused(int *pdq, int *PDQ, int s, int r, int N) {
	auto_arima_object o = auto_arima_init(pdq, PDQ, s, r, N);
	auto_arima_free(o);
}

void client_ar(int method, int N, double *x, int L, double *xp, double *am) {
	ar_object o = ar_init(method, N);
	ar_exec(o, x);
	ar_summary(o);
	ar_predict(o, x, L, xp, am);
	ar_free(o);
}

void client_ar_again(int method, int N, double *x, double *y, int L, double *xp, double *am) {
	ar_object o = ar_init(method, N);
	ar_exec(o, x);
	ar_exec(o, y);
	ar_predict(o, y, L, xp, am);
	ar_summary(o);
	ar_free(o);
}

void client_ar_unused(int method, int N) {
	ar_object o = ar_init(method, N);
	ar_free(o);
}
