#cython: language_level=3
from cosmic_profiles.cython_helpers.helper_class cimport CythonHelpers


def dens(double[:,:] x, double[:,:] p, double[:] m, double[:] ctr, float r200, double[:] a, double[:] b, double[:] c, double[:,:] major, double[:,:] inter, double[:,:] minor, double[:] out, int[:] buf):
    return CythonHelpers.calcDensProfBruteForceEll(x, p, m, ctr, r200, a, b, c, major, inter, minor, out, buf).base


def mencl(double[:,:] x, double[:,:] p, double[:] m, double[:] ctr, double[:] a, double[:] b, double[:] c, double[:,:] major, double[:,:] inter, double[:,:] minor, double[:] out, int[:] buf):
    return CythonHelpers.calcMenclsBruteForceEll(x, p, m, ctr, a, b, c, major, inter, minor, out, buf).base
