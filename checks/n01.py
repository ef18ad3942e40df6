"""N01 message framing: every message sequence, junk and chunking within bounds vs. a reference parser."""
from lib import mc
import io, itertools, re, socket
from unpythonic.net.msg import encodemsg, decodemsg, MessageDecoder
from unpythonic.net.util import bytessource, streamsource, socketsource, ReceiveBuffer, recvall, netstringify

HDR = re.compile(rb"\xffv01l([0-9]+);")

def reference(stream):
    """-> [(body, end offset)], up to the end or a truncated message"""
    out, i = [], 0
    while True:
        i = stream.find(b"\xff", i)
        if i == -1:
            return out
        m = HDR.match(stream, i, i + 4096)
        if not m:
            i += 1
            continue
        end = m.end() + int(m.group(1))
        if end > len(stream):
            return out
        out.append((stream[m.end():end], end))
        i = end

def decode_all(stream, cuts, want, oop):
    """Feed stream cut at the given offsets; check every decoded message and the look-ahead."""
    chunks, p = [], 0
    for c in list(cuts) + [len(stream)]:
        if c > p:
            chunks.append(stream[p:c])
            p = c
    fed = [0, 0]
    def source():
        for c in chunks:
            fed[0] += len(c)
            fed[1] += 1
            yield c
    src = source()
    if oop:
        d = MessageDecoder(src)
        nextmsg, buffered = d.decode, d.get_buffered_data
    else:
        buf = ReceiveBuffer()
        nextmsg, buffered = (lambda: decodemsg(buf, src)), buf.getvalue
    for body, end in want:
        before = fed[1]
        got = nextmsg()
        mc.check(got == body, lambda: f"stream {short(stream)} cuts {list(cuts)[:20]}: decoded {short(got)}, expected {short(body)}")
        # never waits for data beyond the end of the message
        last = chunks[fed[1] - 1] if fed[1] else b""
        mc.check(fed[1] == before or fed[0] - len(last) < end, lambda: f"stream {short(stream)}: read beyond the end of the message")
        mc.check(buffered() == stream[end:fed[0]], lambda: f"stream {short(stream)} cuts {cuts}: bytes lost between messages")
        mc.step()
    got = nextmsg()
    mc.check(got is None, lambda: f"stream {short(stream)} cuts {list(cuts)[:20]}: decoded {short(got)}, expected end of stream")
    mc.step()

def short(b):
    return b if b is None or len(b) <= 80 else (b[:30], "...", len(b))

# ------------------------------------------------------------ all chunkings of short message sequences
BODIES = [b"", b"\xff", b";", b"ab", b"1", b"\xffv01l1;"]
def chunk_gen(tier):
    short_ = [[a] for a in range(6)] + [[0, 0], [0, 1], [1, 0], [0, 2], [2, 0], [0, 4], [4, 0]]
    if tier != "quick":
        short_ += [[1, 1], [0, 3], [3, 0], [1, 2], [4, 1]]
    for s in short_:
        for oop in (0, 1):
            yield ["all", s, oop]
    n = 3
    for s in itertools.product(range(len(BODIES)), repeat=n):
        yield ["cuts2", list(s), 1]
    for s in itertools.product(range(len(BODIES)), repeat=n if tier == "quick" else 4):
        yield ["uniform", list(s), 0]

def chunk_run(case):
    kind, s, oop = case
    stream = b"".join(encodemsg(BODIES[i]) for i in s)
    want = []
    end = 0
    for i in s:
        end += len(encodemsg(BODIES[i]))
        want.append((BODIES[i], end))
    mc.check(reference(stream) == want, lambda: f"encoding of {s} is not parseable: {stream}")
    mc.state(stream)
    n = len(stream)
    if kind == "all":
        for mask in range(1 << (n - 1)):
            decode_all(stream, [k + 1 for k in range(n - 1) if mask >> k & 1], want, oop)
            mc.trace()
    elif kind == "cuts2":
        for cuts in itertools.chain([()], itertools.combinations(range(1, n), 1), itertools.combinations(range(1, n), 2)):
            decode_all(stream, cuts, want, oop)
            mc.trace()
    else:
        for c in range(1, n + 1):
            decode_all(stream, range(c, n, c), want, oop)
            for src in (lambda: bytessource(stream, c), lambda: streamsource(io.BytesIO(stream), c)):
                buf, it = ReceiveBuffer(), src()
                mc.eq([decodemsg(buf, it) for _ in range(len(want) + 1)], [w[0] for w in want] + [None], f"source chunksize {c}")
            sizes = [len(x) for x in bytessource(stream, c)]
            mc.check(b"".join(bytessource(stream, c)) == stream == b"".join(streamsource(io.BytesIO(stream), c)), "source loses data")
            mc.check(all(x == c for x in sizes[:-1]) and [len(x) for x in streamsource(io.BytesIO(stream), c)] == sizes, "chunk size")
            mc.trace()

# ------------------------------------------------------------ junk
TOK = [b"\xff", b"v01l", b"v01", b"l", b"2", b";", b"x", b"-1", b"\xffv01l", b"\xffv02l1;", b"\xffv01l1x;", b"\xffv01l+1;", b"\xffv01l 1;", b"\xffv01l\xc3\xa9;", b"\xffv01l1;", b"\xffv01l;"]
def junk_gen(tier):
    n = 3 if tier == "quick" else 4
    for s in mc.seqs(range(len(TOK)), n):
        for place in ("before", "between", "after"):
            yield [list(s), place]

def junk_run(case):
    s, place = case
    j = b"".join(TOK[i] for i in s)
    m1, m2 = encodemsg(b"ab"), encodemsg(b"\xffz")
    stream = {"before": j + m1 + m2, "between": m1 + j + m2, "after": m1 + m2 + j}[place]
    want = reference(stream)
    n = len(stream)
    for cuts in ((), range(1, n), range(2, n, 2), range(3, n, 3), range(7, n, 7)):
        decode_all(stream, cuts, want, 0)
        mc.trace()
    for c in range(1, n):
        decode_all(stream, (c,), want, 0)
        mc.trace()
    mc.state((stream, len(want)))

# ------------------------------------------------------------ sizes around the internal limits
def large_gen(tier):
    sizes = [0, 1, 9, 10, 4080, 4088, 4089, 4090, 4095, 4096, 4097, 8192, 10000]
    chunks = [1000, 4090, 4095, 4096, 4097, 8192, 100000]
    for a, b in itertools.product(sizes, repeat=2):
        for c in chunks:
            yield ["msgs", a, b, c]
    for n in list(range(4080, 4105)) + [1, 100, 5000, 9000]:
        for c in (512, 4095, 4096, 4097, 100000):
            for kind in ("hdr9", "hdrx", "junk", "ff"):
                yield [kind, n, 0, c]

def large_run(case):
    kind, a, b, c = case
    if kind == "msgs":
        stream = encodemsg(b"\xfe" * a) + encodemsg(b";" * b) + encodemsg(b"end")
    else:
        j = {"hdr9": b"\xffv01l" + b"9" * a, "hdrx": b"\xffv01l" + b"x" * a, "junk": b"j" * a, "ff": b"\xff" * a}[kind]
        stream = j + encodemsg(b"one") + encodemsg(b"two")
    want = reference(stream)
    decode_all(stream, range(c, len(stream), c), want, 0)
    mc.state((kind, a, b, c, len(want)))

# ------------------------------------------------------------ sockets
def sock_gen(tier):
    for s in itertools.product(range(len(BODIES)), repeat=2):
        for c in (1, 3, 4096):
            for cut in (0, 3, 9):
                yield [list(s), c, cut]
def sock_run(case):
    s, c, cut = case
    stream = b"".join(encodemsg(BODIES[i]) for i in s)
    a, b = socket.socketpair()
    try:
        a.sendall(stream[:cut])
        d = MessageDecoder(socketsource(b, c))
        a.sendall(stream[cut:])
        a.shutdown(socket.SHUT_WR)
        mc.eq([d.decode() for _ in range(len(s) + 1)], [BODIES[i] for i in s] + [None], f"{case}")
    finally:
        a.close(); b.close()
    # recvall
    a, b = socket.socketpair()
    try:
        a.sendall(stream)
        a.shutdown(socket.SHUT_WR)
        n = len(stream)
        mc.eq(recvall(cut, b), stream[:cut], "recvall")
        mc.eq(recvall(n - cut, b), stream[cut:], "recvall rest")
        mc.check(recvall(1, b) is None, "recvall at EOF")
    finally:
        a.close(); b.close()
    mc.eq(netstringify(stream), str(len(stream)).encode() + b":" + stream + b",", "netstring")
    mc.step(3); mc.state(case)

SPACES = [
    mc.Space("chunkings", chunk_gen, chunk_run, "message sequences of 1-2 short bodies with ALL chunkings; of 3 with all <=2-cut and all uniform chunkings", timeout=120),
    mc.Space("junk", junk_gen, junk_run, f"all sequences of <=3 (4) of {len(TOK)} junk tokens before/between/after messages; one-cut and uniform chunkings"),
    mc.Space("limits", large_gen, large_run, "message and junk sizes around the 4096-byte limits x chunk sizes"),
    mc.Space("sources", sock_gen, sock_run, "socket source, recvall, netstringify"),
]
