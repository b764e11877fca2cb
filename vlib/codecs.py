"""Independent decoders: zlib from Python, brotli through the system library."""
import ctypes, zlib
_bd = ctypes.CDLL('libbrotlidec.so.1')
_bd.BrotliDecoderCreateInstance.restype = ctypes.c_void_p
_bd.BrotliDecoderDecompressStream.argtypes = [ctypes.c_void_p] + [ctypes.c_void_p] * 5
_bd.BrotliDecoderIsFinished.argtypes = [ctypes.c_void_p]
_bd.BrotliDecoderDestroyInstance.argtypes = [ctypes.c_void_p]
_be = ctypes.CDLL('libbrotlienc.so.1')


def brotli_decode(data):
    """Returns (bytes, None) for exactly one complete stream, else (None, reason)."""
    st = _bd.BrotliDecoderCreateInstance(None, None, None)
    try:
        src = ctypes.create_string_buffer(data, len(data)) if data else ctypes.create_string_buffer(1)
        avail_in = ctypes.c_size_t(len(data))
        next_in = ctypes.c_void_p(ctypes.addressof(src))
        out = b''
        n = 1 << 16
        buf = ctypes.create_string_buffer(n)
        while True:
            avail_out = ctypes.c_size_t(n)
            next_out = ctypes.c_void_p(ctypes.addressof(buf))
            r = _bd.BrotliDecoderDecompressStream(st, ctypes.byref(avail_in), ctypes.byref(next_in), ctypes.byref(avail_out), ctypes.byref(next_out), None)
            out += buf.raw[:n - avail_out.value]
            if r == 1:
                if avail_in.value:
                    return None, 'trailing data'
                return out, None
            if r == 0:
                return None, 'corrupt'
            if r == 2:
                return None, 'truncated'
    finally:
        _bd.BrotliDecoderDestroyInstance(st)


def brotli_encode(data, quality=5, lgwin=22):
    cap = len(data) + len(data) // 2 + 1024
    buf = ctypes.create_string_buffer(cap)
    n = ctypes.c_size_t(cap)
    if not _be.BrotliEncoderCompress(ctypes.c_int(quality), ctypes.c_int(lgwin), ctypes.c_int(0), ctypes.c_size_t(len(data)), data, ctypes.byref(n), buf):
        raise RuntimeError('brotli encode')
    return buf.raw[:n.value]


def zdecode(data, wbits):
    d = zlib.decompressobj(wbits)
    try:
        out = d.decompress(data) + d.flush()
    except zlib.error as e:
        return None, 'corrupt: %s' % e
    if not d.eof:
        return None, 'truncated'
    if d.unused_data:
        return None, 'trailing data'
    return out, None


def decode(coding, data):
    if coding == 'br':
        return brotli_decode(data)
    if coding == 'gzip':
        return zdecode(data, 31)
    if coding == 'deflate':
        return zdecode(data, 15)
    return None, 'unknown coding ' + coding
