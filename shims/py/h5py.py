"""Stand-in for the part of h5py that tools/gen_atomdb.py uses (h5py is not in the sandbox):
read-only access to datasets of numbers, through libhdf5 itself."""
import ctypes, glob
import numpy as np
_c = None
for _p in sorted(glob.glob("/usr/lib/x86_64-linux-gnu/libhdf5_serial.so*") + glob.glob("/usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so*")):
    try: _c = ctypes.CDLL(_p); break
    except OSError: pass
if _c is None: raise ImportError("libhdf5")
_hid = ctypes.c_int64
for _n in ("H5Fopen", "H5Dopen2", "H5Dget_space", "H5Dget_type"): getattr(_c, _n).restype = _hid
_c.H5Fopen.argtypes = [ctypes.c_char_p, ctypes.c_uint, _hid]
_c.H5Dopen2.argtypes = [_hid, ctypes.c_char_p, _hid]
_c.H5Lexists.argtypes = [_hid, ctypes.c_char_p, _hid]
for _n in ("H5Fclose", "H5Dclose", "H5Sclose", "H5Tclose", "H5Dget_space", "H5Dget_type", "H5Tget_class", "H5Sget_simple_extent_ndims"): getattr(_c, _n).argtypes = [_hid]
_c.H5Sget_simple_extent_dims.argtypes = [_hid, ctypes.POINTER(ctypes.c_uint64), ctypes.c_void_p]
_c.H5Dread.argtypes = [_hid, _hid, _hid, _hid, _hid, ctypes.c_void_p]
_c.H5open(); _c.H5Eset_auto2.argtypes = [_hid, ctypes.c_void_p, ctypes.c_void_p]; _c.H5Eset_auto2(0, None, None)
class Dataset:
    def __init__(self, f, key):
        d = _c.H5Dopen2(f, key.encode(), 0)
        if d < 0: raise KeyError(key)
        s = _c.H5Dget_space(d); n = _c.H5Sget_simple_extent_ndims(s); dims = (ctypes.c_uint64 * max(n, 1))()
        if n > 0: _c.H5Sget_simple_extent_dims(s, dims, None)
        t = _c.H5Dget_type(d); cl = _c.H5Tget_class(t)
        dt, sym = (np.int64, "H5T_NATIVE_INT64_g") if cl == 0 else (np.float64, "H5T_NATIVE_DOUBLE_g")
        if cl not in (0, 1): raise TypeError(key)
        self.v = np.zeros(tuple(dims[i] for i in range(n)), dtype=dt)
        if self.v.size and _c.H5Dread(d, _hid.in_dll(_c, sym).value, 0, 0, 0, self.v.ctypes.data) < 0: raise OSError(key)
        _c.H5Tclose(t); _c.H5Sclose(s); _c.H5Dclose(d)
    shape = property(lambda s: s.v.shape)
    def __getitem__(self, i): return self.v[i]
    def __len__(self): return len(self.v)
    def __array__(self, dtype=None, copy=None): return np.array(self.v, dtype=dtype)
class File:
    def __init__(self, name, mode="r"):
        if mode != "r": raise ValueError(mode)
        self.f = _c.H5Fopen(str(name).encode(), 0, 0)
        if self.f < 0: raise OSError("unable to open " + str(name))
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def close(self): _c.H5Fclose(self.f)
    def __contains__(self, k): return _c.H5Lexists(self.f, k.encode(), 0) > 0
    def __getitem__(self, k):
        if k not in self: raise KeyError(k)
        return Dataset(self.f, k)
