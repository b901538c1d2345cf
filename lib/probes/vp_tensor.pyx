#cython: language_level=3
from cosmic_profiles.cython_helpers.helper_class cimport CythonHelpers


def tensor(double[:,:] x, int[:] sel, complex[::1,:] out, double[:] m, double[:] c, int n, bint reduced, double[:] r):
    return CythonHelpers.calcShapeTensor(x, sel, out, m, c, n, reduced, r).base


def plain(double[:,:] x, int[:] sel, complex[::1,:] out, double[:] m, double[:] c, int n):
    return CythonHelpers.calcShapeTensor(x, sel, out, m, c, n, False).base


def eig(complex[::1,:] H, double[::1] w, complex[::1,:] Z, int n):
    CythonHelpers.ZHEEVR(H, &w[0], Z, n)
