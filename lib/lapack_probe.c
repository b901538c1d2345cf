/* LAPACK is not instrumented: a sanitizer does not see what it writes. This goes between the kernels and zheevr (see
   lib/probe.py) and touches every buffer that LAPACK was given, as far as LAPACK may use it. Compiled with the
   sanitizer of the variant it belongs to. */
#include <stddef.h>
typedef void (*zheevr_t)(char *, char *, char *, int *, double *, int *, double *, double *, int *, int *, double *, int *,
                         double *, double *, int *, int *, double *, int *, double *, int *, int *, int *, int *);
static zheevr_t real;
static long calls;
void probe_set(void *p) { real = (zheevr_t)p; }
long probe_calls(void) { return __atomic_load_n(&calls, __ATOMIC_RELAXED); }

static void touch(volatile char *p, size_t n)
{
    for (size_t i = 0; i < n; i += 4) p[i] = p[i];
    if (n) p[n - 1] = p[n - 1];
}
static void look(const volatile char *p, size_t n)
{
    char c = 0;
    for (size_t i = 0; i < n; i += 4) c ^= p[i];
    if (n) c ^= p[n - 1];
    (void)c;
}

void probe_zheevr(char *jobz, char *range, char *uplo, int *n, double *a, int *lda, double *vl, double *vu, int *il, int *iu,
                  double *abstol, int *m, double *w, double *z, int *ldz, int *isuppz, double *work, int *lwork, double *rwork,
                  int *lrwork, int *iwork, int *liwork, int *info)
{
    int query = *lwork == -1 || *lrwork == -1 || *liwork == -1;
    if (!query && *n > 0) look((char *)a, 16 * (size_t)*lda * (size_t)*n);
    real(jobz, range, uplo, n, a, lda, vl, vu, il, iu, abstol, m, w, z, ldz, isuppz, work, lwork, rwork, lrwork, iwork, liwork, info);
    __atomic_add_fetch(&calls, 1, __ATOMIC_RELAXED);
    if (!query && *n > 0) {
        touch((char *)a, 16 * (size_t)*lda * (size_t)*n);
        touch((char *)w, 8 * (size_t)*n);
        touch((char *)z, 16 * (size_t)*ldz * (size_t)*n);
        touch((char *)isuppz, 8 * (size_t)*n);
        touch((char *)work, 16 * (size_t)(*lwork > 2 * *n ? *lwork : 2 * *n));
        touch((char *)rwork, 8 * (size_t)(*lrwork > 24 * *n ? *lrwork : 24 * *n));
        touch((char *)iwork, 4 * (size_t)(*liwork > 10 * *n ? *liwork : 10 * *n));
    }
    touch((char *)info, 4);
    touch((char *)m, 4);
}
