"""Python control of the scheduler shim (libvpsched): runs a callable under given choices."""
import ctypes
import os


class Sched:
    FIXED, PLANS, RACE, INTERLEAVE = 0, 1, 2, 3

    def __init__(self, path=None):
        path = path or os.environ["VP_SCHED"]
        lib = self.lib = ctypes.CDLL(path)
        lib.vps_begin.argtypes = [ctypes.c_int, ctypes.POINTER(ctypes.c_int), ctypes.c_int,
                                  ctypes.c_int]
        lib.vps_accesses.restype = ctypes.c_long

    def run(self, fn, mode, prefix=(), bound=0, spurious=0):
        """(result or None, exception or None, trace [(n, tag, choice)])"""
        lib = self.lib
        arr = (ctypes.c_int * max(1, len(prefix)))(*prefix)
        lib.vps_spurious_bound(spurious)
        lib.vps_begin(mode, arr, len(prefix), bound)
        res = exc = None
        try:
            res = fn()
        except Exception as e:
            exc = e
        n = lib.vps_end()
        a, b, c = ((ctypes.c_int * max(1, n))() for _ in range(3))
        lib.vps_trace(a, b, c)
        self.diverged = bool(lib.vps_diverged())
        self.livelock = bool(lib.vps_livelock())
        self.regions = lib.vps_regions()
        self.max_tasks = lib.vps_max_tasks()
        self.accesses = lib.vps_accesses()
        return res, exc, list(zip(a[:n], b[:n], c[:n]))

    def races(self):
        buf = ctypes.create_string_buffer(2048)
        out = []
        for i in range(self.lib.vps_race_count()):
            self.lib.vps_race(i, buf, 2048)
            out.append(buf.value.decode())
        return out
