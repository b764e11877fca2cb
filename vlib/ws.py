"""RFC 6455 client side: handshake, frame builder, strict parser for server frames."""
import base64, hashlib, os, socket, struct, time
from . import srv

GUID = b'258EAFA5-E914-47DA-95CA-C5AB0DC85B11'
TEXT, BIN, CONT, CLOSE, PING, PONG = 1, 2, 0, 8, 9, 10


class BadFrame(Exception):
    pass


def accept_of(key):
    return base64.b64encode(hashlib.sha1(key + GUID).digest()).decode()


def mask(data, m):
    if m == b'\0\0\0\0' or not data:
        return data
    n = len(data)
    return (int.from_bytes(data, 'little') ^ int.from_bytes((m * (n // 4 + 1))[:n], 'little')).to_bytes(n, 'little')


def frame(op, payload=b'', fin=True, m=b'\x01\x02\x03\x04', rsv=0, lenform=None):
    """lenform: None minimal, or 7/16/64 to force a length encoding. m None: unmasked."""
    n = len(payload)
    b0 = (0x80 if fin else 0) | (rsv << 4) | op
    form = lenform or (7 if n < 126 else 16 if n < 65536 else 64)
    mb = 0x80 if m is not None else 0
    h = bytes([b0, mb | (n if form == 7 else 126 if form == 16 else 127)])
    if form == 16:
        h += struct.pack('>H', n)
    elif form == 64:
        h += struct.pack('>Q', n)
    if m is not None:
        h += m
        payload = mask(payload, m)
    return h + payload


def handshake_req(path='/ws', key=b'dGhlIHNhbXBsZSBub25jZQ==', headers=(), upgrade='websocket'):
    hs = [('Upgrade', upgrade), ('Connection', 'Upgrade'), ('Sec-WebSocket-Key', key), ('Sec-WebSocket-Version', '13')] + list(headers)
    return srv.req('GET', path, hs)


class Ws:
    def __init__(self, port, path='/ws', key=None, timeout=30, rcvbuf=None):
        self.key = key or base64.b64encode(os.urandom(16))
        self.c = srv.Conn(port, timeout, rcvbuf)
        self.c.send(handshake_req(path, self.key))
        r = self.c.response(timeout=timeout)
        if r is None or r.code != 101:
            raise BadFrame('handshake refused: %s' % (r and r.code))
        self.resp = r

    def send(self, data):
        self.c.send(data)

    def next(self, timeout=30):
        """Next server frame (fin, op, payload); None at EOF between frames. Raises BadFrame, socket.timeout."""
        end = time.time() + timeout

        def need(n):
            while len(self.c.buf) < n:
                left = end - time.time()
                if left <= 0:
                    raise socket.timeout('no frame')
                if not self.c.fill(left):
                    if not self.c.buf:
                        return False
                    raise BadFrame('EOF inside a frame: %r' % self.c.buf[:50])
            return True
        if not need(2):
            return None
        b0, b1 = self.c.buf[0], self.c.buf[1]
        fin, rsv, op = b0 >> 7, (b0 >> 4) & 7, b0 & 15
        if rsv:
            raise BadFrame('reserved bits set (%02x)' % b0)
        if op not in (0, 1, 2, 8, 9, 10):
            raise BadFrame('opcode %d' % op)
        if b1 & 0x80:
            raise BadFrame('masked server frame')
        n, off = b1 & 127, 2
        if n == 126:
            need(4)
            n, off = struct.unpack('>H', self.c.buf[2:4])[0], 4
            if n < 126:
                raise BadFrame('non-minimal length')
        elif n == 127:
            need(10)
            n, off = struct.unpack('>Q', self.c.buf[2:10])[0], 10
            if n < 65536 or n > 1 << 40:
                raise BadFrame('bad 64-bit length %d' % n)
        if op >= 8 and (n > 125 or not fin):
            raise BadFrame('bad control frame (fin %d, %d bytes)' % (fin, n))
        # large frames: read without quadratic concatenation
        if len(self.c.buf) < off + n:
            parts, have = [self.c.buf], len(self.c.buf)
            self.c.buf = b''
            while have < off + n:
                left = end - time.time()
                if left <= 0:
                    raise socket.timeout('frame incomplete')
                if not self.c.fill(left):
                    raise BadFrame('EOF inside a frame payload')
                parts.append(self.c.buf)
                have += len(self.c.buf)
                self.c.buf = b''
            self.c.buf = b''.join(parts)
        p = self.c.buf[off:off + n]
        self.c.buf = self.c.buf[off + n:]
        return fin, op, p

    def close(self):
        self.c.close()
