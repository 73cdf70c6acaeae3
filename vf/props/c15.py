"""C15: LEB128 codec."""
import io

from .. import drive
from ..runner import Test, check

ID = 'C15'
RULE = ('a case is one integer (or byte string) with a padding length and trailing bytes; non-trivial = the encoding '
        'has at least two bytes; distinct by case')
ASSUME = ['redundant encodings are padded with sign/zero extension groups only, as the binary format allows']
leb = __import__('pywasm').leb128


def ref_enc(n, signed):
    """shortest encoding, from the definition: smallest k whose k*7-bit range holds n"""
    k = 1
    while not (-(1 << (7 * k - 1)) <= n < 1 << (7 * k - 1) if signed else n < 1 << (7 * k)):
        k += 1
    v = n & ((1 << 7 * k) - 1)
    return bytes(((v >> 7 * i) & 0x7f) | (0x80 if i < k - 1 else 0) for i in range(k))


def pad(b, n, neg):
    if not n:
        return b
    fill = 0x7f if neg else 0
    return b[:-1] + bytes([b[-1] | 0x80]) + bytes([fill | 0x80]) * (n - 1) + bytes([fill])


class OneByte(io.RawIOBase):
    """a stream that counts what is taken from it"""

    def __init__(self, b):
        self.b, self.pos = b, 0

    def read(self, n=-1):
        n = len(self.b) - self.pos if n is None or n < 0 else n
        out = self.b[self.pos:self.pos + n]
        self.pos += len(out)
        return out


def run(case, ctx):
    signed, n, npad, tail = case
    c = leb.i if signed else leb.u
    e = ref_enc(n, signed)
    what = f'{"signed" if signed else "unsigned"} {n}'
    got = drive.attempt(c.encode, n)
    check(bytes(got) == e, f'{what}: encodes to {bytes(got).hex()}, expected {e.hex()}')
    p = pad(e, npad, n < 0)
    for b in (e, p):
        d = drive.attempt(c.decode, bytearray(b))
        check(d == n, f'{what}: decode({b.hex()}) = {d}')
        for cls in (io.BytesIO, OneByte):
            s = cls(b + tail)
            v, k = drive.attempt(c.decode_reader, s)
            rest = s.read()
            check((v, k, rest) == (n, len(b), tail), f'{what}: decode_reader({(b + tail).hex()}) = {v}, {k} bytes, '
                  f'left {rest.hex()}')
        for cut in range(len(b)):
            try:
                r = drive.attempt(c.decode_reader, io.BytesIO(b[:cut]))
            except drive.Raised:
                continue
            check(False, f'decode_reader accepted truncated {b[:cut].hex()} as {r}')
    if len(e) > 1:
        ctx.good()
    ctx.tag(f'len{min(len(e), 11)}')
    if npad:
        ctx.tag('padded')


def run_neg(case, ctx):
    try:
        r = drive.attempt(leb.u.encode, case)
    except drive.Raised:
        ctx.good()
        return
    check(False, f'unsigned encode({case}) returned {bytes(r).hex()}')


def run_stream(case, ctx):
    """several values back to back from one stream"""
    s = io.BytesIO(b''.join(pad(ref_enc(n, sg), p, n < 0) for sg, n, p in case))
    for sg, n, p in case:
        at = s.tell()
        v, k = drive.attempt((leb.i if sg else leb.u).decode_reader, s)
        check(v == n and k == len(ref_enc(n, sg)) + p and s.tell() == at + k,
              f'{case}: got {v} with {k} bytes for {n}')
    if len(case) > 1:
        ctx.good()


def cases(tier, shard, nshards):
    k = 0
    top = 20 if tier == 'quick' else 40
    for sh in range(0, 7 * top):
        for d in (-2, -1, 0, 1):
            for sg in (False, True):
                for neg in ((False, True) if sg else (False,)):
                    n = (1 << sh) + d
                    n = -n if neg else n
                    if n < 0 and not sg:
                        continue
                    k += 1
                    if k % nshards == shard:
                        yield sg, n, k % 4, b'\x80\x01' if k % 3 else b''
    lim = 20000 if tier == 'quick' else 400000
    for n in range(shard, lim, nshards):
        yield False, n, n % 3, b''
        yield True, n - lim // 2, n % 3, b'\x7f'


def tests(tier):
    from hypothesis import strategies as st
    width = st.integers(1, 200)
    nn = width.flatmap(lambda k: st.integers(0, (1 << k) - 1))
    ss = width.flatmap(lambda k: st.integers(-(1 << k), (1 << k) - 1))
    num = st.one_of(st.tuples(st.just(False), nn), st.tuples(st.just(True), ss))
    return [
        Test('ranges', run, cases=cases),
        Test('random', run, strategy=lambda: st.builds(lambda a, p, t: (a[0], a[1], p, t), num, st.integers(0, 9),
                                                       st.binary(max_size=4)), n=(16000, 600000)),
        Test('stream', run_stream, strategy=lambda: st.lists(st.builds(lambda a, p: (a[0], a[1], p), num,
                                                                       st.integers(0, 5)), max_size=8),
             n=(3000, 80000)),
        Test('negative', run_neg, strategy=lambda: st.one_of(st.integers(max_value=-1), st.integers(-300, -1)),
             n=(1000, 10000), shards=1),
    ]
