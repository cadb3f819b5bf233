"""C27: message protocol: no loss, no duplication, order, any chunking; junk and truncation injected."""
import io
import re
import socket
import threading

from vp import gen
from vp.core import section
from unpythonic.net.msg import encodemsg, decodemsg, MessageDecoder
from unpythonic.net.util import ReceiveBuffer, bytessource, streamsource, socketsource, recvall, netstringify

HEADER = re.compile(rb"\xffv01l([0-9]+);", re.S)
FALSE = [b"\xff", b"\xffv", b"\xffv0", b"\xffv01", b"\xffv01l", b"\xffv02l5;", b"\xffx01l3;", b"\xffv01labc;", b"\xffv01l-3;",
         b"\xffv01l+3;", b"\xffv01l 3;", b"\xffv01l3x;", b"\xffv01l;", b"\xffv01l1_0;", b"\xffv01l3.0;", b"\xff\xff\xff", b"\xffv01m3;",
         b"\xffV01l3;", b"\xffv01l\xff", b"\xffv01l0x10;", b"\xffv01l\xc2\xb2;"]


def ref_decode(data):
    """Specification: list of (body, end offset), and the state at the end."""
    out, pos = [], 0
    while True:
        pos = data.find(b"\xff", pos)
        if pos == -1:
            return out
        m = HEADER.match(data, pos)
        if m and m.end() - 1 - pos < 4096:
            n = int(m.group(1))
            if len(data) - m.end() < n:
                return out   # cut short
            out.append((data[m.end():m.end() + n], m.end() + n))
            pos = m.end() + n
        else:
            pos += 1


def body(rng):
    k = rng.randrange(9)
    if k == 0: return b""
    if k == 1: return "".join(rng.choice("aä;v01l\n☃0123") for _ in range(rng.randrange(30))).encode()
    if k == 2: return bytes(rng.randrange(256) for _ in range(rng.randrange(40)))
    if k == 3: return encodemsg(bytes(rng.randrange(256) for _ in range(rng.randrange(5))))
    if k == 4: return bytes([rng.choice([0xff, 0x76, 0x3b])]) * rng.randrange(1, 20)
    if k == 5: return rng.randbytes(rng.choice([4085, 4086, 4087, 4088, 4089, 4090, 4095, 4096, 4097, 8192, 10000, 30000]))
    if k == 6: return b"x" * rng.randrange(4080, 4110)
    return b"m" + str(rng.randrange(10**6)).encode()


def junk(rng, hostile):
    n = rng.choice([0, 0, 1, 3, 10, 100, 4096, 5000]) if rng.random() < 0.3 else rng.randrange(6)
    j = bytes(b for b in rng.randbytes(n) if b != 0xff)
    if hostile:
        parts = [j]
        for _ in range(rng.randrange(3)):
            parts.append(rng.choice(FALSE))
            if rng.random() < 0.2:
                parts.append(bytes(b for b in rng.randbytes(rng.choice([2, 4091, 4200])) if b not in (0xff, 0x3b)))
        j = b"".join(parts)
    return j


def chunks(rng, data):
    mode = rng.randrange(5)
    if mode == 0 and len(data) < 3000:
        sizes = lambda: 1
    elif mode == 1:
        sizes = lambda: 4096
    elif mode == 2:
        sizes = lambda: rng.choice([1, 2, 3, 5, 7, 100, 4000, 5000])
    elif mode == 3:
        sizes = lambda: len(data) + 1
    else:
        sizes = lambda: rng.randrange(1, 6000)
    out, i = [], 0
    while i < len(data):
        n = sizes()
        out.append(data[i:i + n])
        i += n
    return out


@section(quick=6000, thorough=150000, require={"messages": 5000, "junk": 1000, "truncated": 300, "big": 500})
def streams(ctx, rng):
    hostile = rng.random() < 0.4
    msgs = [body(rng) for _ in range(rng.randrange(0, 6))]
    data = b""
    for m in msgs:
        if rng.random() < 0.5:
            j = junk(rng, hostile)
            if j:
                ctx.event("junk")
            data += j
        e = encodemsg(m)
        ctx.check(isinstance(e, bytes) and HEADER.match(e) and e[HEADER.match(e).end():] == m and int(HEADER.match(e).group(1)) == len(m),
                  "encodemsg does not produce the documented format", body=m, got=e)
        data += e
        if len(m) > 4000:
            ctx.event("big")
    if rng.random() < 0.4:
        data += junk(rng, hostile)
    trunc = rng.random() < 0.3 and data
    if trunc:
        data = data[:rng.randrange(len(data))]
        ctx.event("truncated")
    want = ref_decode(data)
    if not hostile and not trunc:
        assert [w[0] for w in want] == msgs
    ch = chunks(rng, data)
    ends, tot = [], 0
    for c in ch:
        tot += len(c)
        ends.append(tot)
    src = gen.CountIter(ch)
    api = rng.randrange(2)
    if api:
        dec = MessageDecoder(src)
        decode, rest = dec.decode, dec.get_buffered_data
    else:
        buf = ReceiveBuffer()
        decode, rest = (lambda: decodemsg(buf, src)), buf.getvalue
    ctx.note(hostile=hostile, nchunks=len(ch), data=data[:300], lens=[len(m) for m in msgs])
    stop_early = rng.randrange(len(want) + 1) if want and rng.random() < 0.3 else None
    used = 0
    for i, (w, end) in enumerate(want):
        if stop_early == i:
            break
        got = decode()
        ctx.event("messages")
        ctx.check(type(got) is bytes and got == w, f"message {i} lost, damaged or out of order", got=got, want=w)
        need = next(k + 1 for k, e in enumerate(ends) if e >= end)
        ctx.check(src.n == max(need, used), "decoder read past the end of a complete message (would block on a live connection)",
                  chunks_read=src.n, chunks_needed=need)
        used = src.n
        left = rest()
        ctx.check(left + b"".join(ch[src.n:]) == data[end:], "bytes after the message were lost from the receive buffer", left=left[:200])
    else:
        for _ in range(rng.randrange(1, 3)):
            got = decode()
            if _ == 0:
                ctx.check(got is None, "expected None at end of data", got=got, want=None)
    ctx.seen(hostile, api, tuple(map(len, msgs)), len(ch), trunc)
    ctx.sample({"message_lengths": [len(m) for m in msgs], "chunks": len(ch), "hostile_junk": hostile, "stream_prefix": data[:40]})


@section(quick=400, thorough=8000, deadline=60, require={"messages": 400, "recvall": 100, "socket_none": 30})
def sources(ctx, rng):
    """bytessource/streamsource/socketsource deliver every byte in order; recvall; netstringify."""
    msgs = [body(rng) for _ in range(rng.randrange(1, 5))]
    data = b"".join(map(encodemsg, msgs))
    cs = rng.choice([1, 2, 7, 1000, 4096, 5000]) if len(data) < 5000 else rng.choice([100, 4096, 5000])
    def drain(src):
        d = MessageDecoder(src)
        out = []
        while True:
            m = d.decode()
            if m is None:
                return out
            ctx.event("messages")
            out.append(m)
    for mk in (lambda: bytessource(data, cs), lambda: streamsource(io.BytesIO(data), cs)):
        parts = list(mk())
        ctx.check(b"".join(parts) == data and all(type(p) is bytes and 0 < len(p) <= cs for p in parts), "source lost data or ignored the chunk size",
                  cs=cs, sizes=[len(p) for p in parts][:20], total=len(data))
        ctx.check(drain(mk()) == msgs, "messages differ through this source")
    def feed(sock, payload):
        def run():
            i = 0
            while i < len(payload):
                n = rng2.choice([1, 10, 3000, 100000])
                sock.sendall(payload[i:i + n])
                i += n
            sock.shutdown(socket.SHUT_WR)
        import random
        rng2 = random.Random(rng.random())
        t = threading.Thread(target=run, daemon=True)
        t.start()
        return t
    a, b = socket.socketpair()
    try:
        t = feed(a, data)
        out = drain(socketsource(b, cs))
        t.join(20)
        ctx.check(out == msgs, "messages differ through a socket", got=[len(m) for m in out], want=[len(m) for m in msgs])
    finally:
        a.close()
        b.close()
    payload = data[:rng.randrange(len(data) + 1)]
    n = rng.randrange(len(data) + 1)
    a, b = socket.socketpair()
    try:
        t = feed(a, payload)
        got = recvall(n, b)
        if n <= len(payload):
            ctx.event("recvall")
            ctx.check(got == payload[:n], "recvall did not return exactly the bytes asked for", got=got and len(got), want=n)
            rest = b""
            while True:
                x = b.recv(4096)
                if not x:
                    break
                rest += x
            ctx.check(rest == payload[n:], "recvall consumed more than asked for", n=n)
        else:
            ctx.event("socket_none")
            ctx.check(got is None, "recvall must return None when the peer closes early", got=got)
        t.join(20)
    finally:
        a.close()
        b.close()
    m = msgs[0]
    ctx.check(netstringify(m) == str(len(m)).encode() + b":" + m + b",", "netstringify", m=m)
    for f, bad in ((encodemsg, "str"), (netstringify, "str"), (bytessource, "str"), (streamsource, b"x"), (socketsource, b"x")):
        try:
            f(bad)
        except TypeError:
            pass
        else:
            ctx.violate("wrong type accepted", f=f.__name__)
    ctx.seen(tuple(map(len, msgs)), cs, n)


@section(quick=300, thorough=5000, require={"ops": 2000})
def buffer(ctx, rng):
    """ReceiveBuffer against a bytes model."""
    init = rng.randbytes(rng.randrange(5))
    rb, model = ReceiveBuffer(init), init
    for _ in range(20):
        x = rng.randbytes(rng.randrange(10))
        ctx.event("ops")
        op = rng.randrange(3)
        if op == 0:
            ctx.check(rb.append(x) is rb, "append returns the buffer")
            model += x
        elif op == 1:
            ctx.check(rb.set(x) is rb, "set returns the buffer")
            model = x
        else:
            try:
                rng.choice([rb.append, rb.set])("text")
            except TypeError:
                pass
            else:
                ctx.violate("non-bytes accepted")
        ctx.check(rb.getvalue() == model, "buffer contents differ", got=rb.getvalue(), want=model)
    ctx.seen(model)
