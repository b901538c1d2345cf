#cython: language_level=3
from cosmic_profiles.cython_helpers.helper_class cimport CythonHelpers


def ktilde(float r, float ri, float h):
    return CythonHelpers.calcKTilde(r, ri, h)
