"""libzstd through ctypes: compression of metadata the way different tools would do it."""
import ctypes, ctypes.util
_l = ctypes.CDLL(ctypes.util.find_library("zstd") or "libzstd.so.1")
for f, r, a in (("ZSTD_compressBound", ctypes.c_size_t, [ctypes.c_size_t]), ("ZSTD_isError", ctypes.c_uint, [ctypes.c_size_t]),
                ("ZSTD_createCCtx", ctypes.c_void_p, []), ("ZSTD_freeCCtx", ctypes.c_size_t, [ctypes.c_void_p]),
                ("ZSTD_CCtx_setParameter", ctypes.c_size_t, [ctypes.c_void_p, ctypes.c_int, ctypes.c_int]),
                ("ZSTD_compress2", ctypes.c_size_t, [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_size_t, ctypes.c_char_p, ctypes.c_size_t])):
    getattr(_l, f).restype = r
    getattr(_l, f).argtypes = a


def compress(data, level=3, checksum=False, size=True):
    if isinstance(data, str): data = data.encode("utf-8", "surrogateescape")
    c = _l.ZSTD_createCCtx()
    for k, v in ((100, level), (200, int(size)), (201, int(checksum))):
        if _l.ZSTD_isError(_l.ZSTD_CCtx_setParameter(c, k, v)): raise ValueError("zstd")
    n = _l.ZSTD_compressBound(len(data))
    out = ctypes.create_string_buffer(n)
    r = _l.ZSTD_compress2(c, out, n, data, len(data))
    _l.ZSTD_freeCCtx(c)
    if _l.ZSTD_isError(r): raise ValueError("zstd")
    return out.raw[:r]


_l.ZSTD_decompress.restype = ctypes.c_size_t
_l.ZSTD_decompress.argtypes = [ctypes.c_char_p, ctypes.c_size_t, ctypes.c_char_p, ctypes.c_size_t]


def decompress(data, limit):
    """The content, or None if it is damaged or longer than the limit."""
    out = ctypes.create_string_buffer(limit + 1)
    r = _l.ZSTD_decompress(out, limit + 1, data, len(data))
    return None if _l.ZSTD_isError(r) else out.raw[:r]
