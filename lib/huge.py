"""Messages longer than 4 GiB in little memory: a window of two megabytes mapped again and again, the last windows (and any chosen one) private."""
import ctypes as C, os
import numpy as np
W = 1 << 21
libc = C.CDLL(None, use_errno=True); libc.mmap.restype = C.c_void_p; libc.mmap.argtypes = [C.c_void_p, C.c_size_t, C.c_int, C.c_int, C.c_int, C.c_long]; libc.munmap.argtypes = [C.c_void_p, C.c_size_t]
class Huge:
    """n bytes of the repeated pattern (if given), then room for extra more; every place can be read and written, but a write to a shared window appears in all of them"""
    def __init__(self, n, extra, pattern=None):
        self.n = n; self.windows = n // W; own = (n + extra + W - 1) // W - self.windows + 1; self.total = (self.windows + own) * W
        self.base = libc.mmap(None, self.total, 3, 0x4022, -1, 0); assert self.base not in (None, 2 ** 64 - 1)
        self.fd = os.memfd_create("window"); os.ftruncate(self.fd, W)
        for j in range(self.windows): assert libc.mmap(self.base + j * W, W, 3, 0x11, self.fd, 0) == self.base + j * W
        if pattern is not None: C.memmove(self.base, pattern, W); C.memmove(self.base + self.windows * W, pattern, n - self.windows * W)
    def at(self, o, k): return C.string_at(self.base + o, k)
    def flip(self, byte, bit):
        """change one bit in one place only"""
        j = byte // W
        if j < self.windows: libc.mmap(self.base + j * W, W, 3, 0x12, self.fd, 0)
        C.memset(self.base + byte, self.at(byte, 1)[0] ^ 1 << bit, 1)
    @property
    def p(self): return C.c_void_p(self.base)
    def close(self): libc.munmap(self.base, self.total); os.close(self.fd)
