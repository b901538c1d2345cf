#cython: language_level=3
from cosmic_profiles.cython_helpers.helper_class cimport CythonHelpers


def dens(double[:,:] x, double[:] m, double[:] c, float r200, double[:] edges, double[:] out, int[:] buf):
    return CythonHelpers.calcDensProfBruteForceSph(x, m, c, r200, edges, out, buf).base


def mencl(double[:,:] x, double[:] m, double[:] c, float r200, double[:] R, double[:] out, int[:] buf):
    return CythonHelpers.calcMenclsBruteForceSph(x, m, c, r200, R, out, buf).base
