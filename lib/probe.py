"""Puts lapack_probe.c between the kernels and LAPACK. To be called before cosmic_profiles is imported."""
import ctypes, os

_lib = None


def install():
    global _lib
    import scipy.linalg.cython_lapack as cl
    cap = cl.__pyx_capi__["zheevr"]
    api = ctypes.pythonapi
    api.PyCapsule_GetName.restype, api.PyCapsule_GetName.argtypes = ctypes.c_char_p, [ctypes.py_object]
    api.PyCapsule_GetPointer.restype, api.PyCapsule_GetPointer.argtypes = ctypes.c_void_p, [ctypes.py_object, ctypes.c_char_p]
    api.PyCapsule_SetPointer.restype, api.PyCapsule_SetPointer.argtypes = ctypes.c_int, [ctypes.py_object, ctypes.c_void_p]
    _lib = ctypes.CDLL(os.path.join(os.environ["VERIF_BDIR"], "libprobe.so"))
    _lib.probe_set.argtypes = [ctypes.c_void_p]
    _lib.probe_calls.restype = ctypes.c_long
    name = api.PyCapsule_GetName(cap)
    _lib.probe_set(api.PyCapsule_GetPointer(cap, name))
    assert api.PyCapsule_SetPointer(cap, ctypes.cast(_lib.probe_zheevr, ctypes.c_void_p)) == 0


def calls():
    return int(_lib.probe_calls())
