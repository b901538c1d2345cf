#cython: language_level=3
from cosmic_profiles.cython_helpers.helper_class cimport CythonHelpers


def com(double[:,:] x, double[:] m, double[:] out):
    return CythonHelpers.calcCoM(x, m, out).base


def spread(double[:,:] x):
    return CythonHelpers.calcLocalSpread(x)


def magnitude(float x):
    return CythonHelpers.cython_abs(x)


def wrap(double[:,:] x, double[:] c, double L):
    return CythonHelpers.respectPBCNoRef(x, c, L).base
