"""A simulated network in front of the real HTTP server code: event loop on virtual time, transports, clients."""

from __future__ import annotations

import asyncio
import asyncio.base_events
import asyncio.events
from base64 import b64decode
from typing import Any, Dict, List, Optional, Tuple

from . import sched


class VirtualSelector:
    """Takes the place of the selector: waits on the simulator instead of on sockets."""

    def __init__(self, loop: "VirtualLoop"):
        self.loop = loop

    def select(self, timeout: Optional[float]):
        sim, loop = sched.SIM, self.loop
        deadline = None if timeout is None else sim.now + timeout
        sim.block(lambda: bool(loop.incoming) or loop.woken, deadline)
        loop.woken = False
        events, loop.incoming = loop.incoming, []
        return events


class VirtualLoop(asyncio.base_events.BaseEventLoop):
    """asyncio's own loop logic over the simulator's clock and network."""

    def __init__(self):
        super().__init__()
        self._selector = VirtualSelector(self)
        self.incoming: List[Any] = []
        self.woken = False
        self._clock_resolution = 1e-9

    def time(self) -> float:
        return sched.SIM.now

    def _process_events(self, event_list):
        for func in event_list:
            self._ready.append(asyncio.events.Handle(func, (), self))

    def _write_to_self(self):
        self.woken = True

    def post(self, func):
        """Called by simulator events: run func in the loop, as if its socket became ready."""
        self.incoming.append(func)

    def _make_self_pipe(self):
        pass

    def add_signal_handler(self, *_):
        raise NotImplementedError


class SimTransport(asyncio.Transport):
    """The server's end of a connection."""

    def __init__(self, loop: VirtualLoop, conn: "Connection"):
        super().__init__({"peername": ("10.0.0.1", 40000 + conn.number), "sockname": ("127.0.0.1", 8000)})
        self.loop, self.conn = loop, conn
        self.protocol: Any = None
        self.closing = False
        self.lost = False
        self.reading = True
        self.pending: List[bytes] = []  # received, not read yet
        self.buffer = bytearray()  # written, not taken by the client yet
        self.paused_writing = False
        self.high, self.low = 65536, 16384
        self.eof_pending = False

    def set_protocol(self, protocol):
        self.protocol = protocol

    def get_protocol(self):
        return self.protocol

    def is_closing(self):
        return self.closing

    def is_reading(self):
        return self.reading

    def pause_reading(self):
        self.reading = False

    def resume_reading(self):
        if not self.reading:
            self.reading = True
            self.loop.call_soon(self._drain)

    def _drain(self):
        while self.pending and self.reading and not self.closing:
            data = self.pending.pop(0)
            self.conn.taken += len(data)
            self.protocol.data_received(data)
        if self.eof_pending and not self.pending and not self.lost:
            self.eof_pending = False
            if not self.closing:
                keep = self.protocol.eof_received()
                if not keep:
                    self.close()

    def feed(self, data: bytes):
        if self.lost or self.closing:
            return
        self.pending.append(data)
        self._drain()

    def feed_eof(self):
        if self.lost:
            return
        self.eof_pending = True
        self._drain()

    def set_write_buffer_limits(self, high=None, low=None):
        self.high = 65536 if high is None else high
        self.low = self.high // 4 if low is None else low

    def get_write_buffer_size(self):
        return len(self.buffer)

    def write(self, data):
        if self.lost:
            return
        self.buffer.extend(data)
        self._flush()
        if len(self.buffer) > self.high and not self.paused_writing:
            self.paused_writing = True
            self.conn.world.state.fire("backpressure")
            self.protocol.pause_writing()

    def _flush(self):
        """Hand written bytes to the client, unless it has stopped reading."""
        if self.conn.stalled():
            room = max(0, self.conn.window - self.conn.in_window)
            chunk = bytes(self.buffer[:room])
        else:
            chunk = bytes(self.buffer)
        if chunk:
            del self.buffer[: len(chunk)]
            if self.conn.stalled():
                self.conn.in_window += len(chunk)
            self.conn.receive(chunk)
        if self.paused_writing and len(self.buffer) <= self.low:
            self.paused_writing = False
            self.protocol.resume_writing()
        if self.closing and not self.buffer:
            self._lose(None)

    def write_eof(self):
        pass

    def can_write_eof(self):
        return True

    def close(self):
        if self.closing:
            return
        self.closing = True
        if not self.buffer:
            self._lose(None)

    def abort(self):
        self.closing = True
        self.buffer.clear()
        self._lose(None)

    def _lose(self, exc):
        if self.lost:
            return
        self.lost = True
        self.closing = True
        self.loop.call_soon(self.protocol.connection_lost, exc)
        self.conn.server_closed()

    def reset(self):
        """The client is gone."""
        if self.lost:
            return
        self.lost = self.closing = True
        self.buffer.clear()
        self.loop.call_soon(self.protocol.connection_lost, ConnectionResetError(104, "Connection reset by peer"))
        self.conn.closed_at = sched.SIM.now


class Reply:
    """A parsed HTTP reply."""

    def __init__(self, status: int, headers: Dict[str, str], body: bytes, complete: bool, at: float):
        self.status, self.headers, self.body, self.complete, self.at = status, headers, body, complete, at


class ReplyParser:
    """Incremental and strict: anything that is not a sequence of HTTP/1.1 replies is an error."""

    def __init__(self):
        self.data = b""
        self.replies: List[Reply] = []
        self.error: Optional[str] = None
        self.ended = False
        self.heads: List[bool] = []  # for each expected reply: is it the reply to a HEAD request?

    def feed(self, data: bytes):
        self.data += data
        while self.error is None and self._one():
            pass

    def _one(self) -> bool:
        end = self.data.find(b"\r\n\r\n")
        if end < 0:
            return False
        try:
            lines = self.data[:end].decode("latin-1").split("\r\n")
            version, status, *_ = lines[0].split(" ")
            if version != "HTTP/1.1":
                raise ValueError("bad status line")
            code = int(status)
            headers: Dict[str, str] = {}
            for line in lines[1:]:
                name, value = line.split(":", 1)
                if name.lower() in headers and name.lower() == "content-length":
                    raise ValueError("two lengths")
                headers[name.lower()] = value.strip()
        except ValueError as err:
            self.error = f"unreadable reply head {self.data[:60]!r}: {err}"
            return False
        if 100 <= code < 200:
            self.data = self.data[end + 4:]
            return True
        rest = self.data[end + 4:]
        is_head = len(self.heads) > len(self.replies) and self.heads[len(self.replies)]
        if is_head or code in (204, 304):
            body, rest = b"", rest
        elif "content-length" in headers:
            size = int(headers["content-length"])
            if len(rest) < size:
                return False
            body, rest = rest[:size], rest[size:]
        elif headers.get("transfer-encoding", "") == "chunked":
            body = b""
            while True:
                pos = rest.find(b"\r\n")
                if pos < 0:
                    return False
                try:
                    size = int(rest[:pos], 16)
                except ValueError:
                    self.error = "bad chunk size"
                    return False
                if len(rest) < pos + 2 + size + 2:
                    return False
                body += rest[pos + 2:pos + 2 + size]
                rest = rest[pos + 4 + size:]
                if size == 0:
                    break
        elif headers.get("connection", "").lower() == "close":
            if not self.ended:
                return False  # the body ends with the connection
            body, rest = rest, b""
        else:
            self.error = "reply without length"
            return False
        self.data = rest
        self.replies.append(Reply(code, headers, body, True, sched.SIM.now))
        return True


def encode_request(req: Dict[str, Any], rid: Any) -> bytes:
    """The bytes of one planned request."""
    if "raw" in req:
        return b64decode(req["raw"])
    method, path = req.get("method", "POST"), req.get("path", "/api/solve/")
    body = b64decode(req["body"]) if "body" in req else b""
    lines = [f"{method} {path} HTTP/1.1", "Host: localhost:8000", f"x-sim-id: {rid}"]
    for name, value in req.get("headers", []):
        lines.append(f"{name}: {value}")
    if req.get("chunked") and body:
        lines.append("Transfer-Encoding: chunked")
        size = max(1, req["chunked"])
        parts = [body[i:i + size] for i in range(0, len(body), size)]
        payload = b"".join(b"%x\r\n%s\r\n" % (len(p), p) for p in parts) + b"0\r\n\r\n"
    else:
        if body or method == "POST":
            lines.append(f"Content-Length: {len(body)}")
        payload = body
    return ("\r\n".join(lines) + "\r\n\r\n").encode("latin-1") + payload


class Connection:
    """A client connection following its plan."""

    def __init__(self, world, number: int, plan: Dict[str, Any]):
        self.world, self.number, self.plan = world, number, plan
        self.loop: VirtualLoop = world.loop
        self.transport: Optional[SimTransport] = None
        self.parser = ReplyParser()
        self.items: List[Tuple[Any, bytes]] = []
        for pos, req in enumerate(plan["reqs"]):
            rid = req.get("id", f"{number}.{pos}")
            self.items.append((rid, encode_request(req, rid)))
            self.parser.heads.append(req.get("method") == "HEAD")
        self.offsets: List[int] = []
        total = 0
        for _, data in self.items:
            total += len(data)
            self.offsets.append(total)
        self.sent = 0  # bytes handed to the server's transport
        self.taken = 0  # bytes given to the server's protocol
        self.item = 0
        self.sending = False  # parts of a request are still to be sent
        self.closed_at: Optional[float] = None
        self.closed_by: Optional[str] = None
        self.closed_taken = 0
        self.stall_on = False
        self.window = plan.get("stall", {}).get("window", 0)
        self.in_window = 0
        self.finished = False
        self.reply_times: List[float] = []

    def stalled(self) -> bool:
        return self.stall_on

    # life ---------------------------------------------------------------------
    def start(self):
        sim = sched.SIM
        sim.at(sim.now + self.plan.get("at", 0.0), lambda: self.loop.post(self._open))

    def _open(self):
        if self.world.gone:
            self.closed_at, self.closed_by = sched.SIM.now, "server"
            sched.SIM.log("refused", conn=self.number)
            self.world.check_done()
            return
        protocol = self.world.make_protocol()
        self.transport = SimTransport(self.loop, self)
        self.transport.set_protocol(protocol)
        sched.SIM.log("connect", conn=self.number)
        protocol.connection_made(self.transport)
        stall = self.plan.get("stall")
        if stall:
            sched.SIM.after(stall["from"], self._stall)
        self._next_item()

    def _stall(self):
        self.stall_on = True
        self.world.state.fire("slow_reader")
        sched.SIM.after(self.plan["stall"]["for"], lambda: self.loop.post(self._unstall))

    def _unstall(self):
        self.stall_on = False
        if self.transport and not self.transport.lost:
            self.transport._flush()

    def _next_item(self):
        if self.item >= len(self.items):
            end = self.plan.get("end")
            if end and "after_bytes" not in end:
                sched.SIM.after(end.get("delay", 0.0), lambda: self.loop.post(self._end))
            return
        req = self.plan["reqs"][self.item]
        if req.get("wait") and len(self.parser.replies) < self.item and self.closed_at is None:
            return  # receive() continues
        pos = self.item
        self.item += 1
        self.sending = True
        data = self.items[pos][1]
        while self.item < len(self.items) and self.plan["reqs"][self.item].get("glue"):
            data += self.items[self.item][1]  # several requests in one segment
            self.item += 1
            self.world.state.fire("merged_requests")
        cuts = sorted({c for c in req.get("cuts", []) if 0 < c < len(data)})
        pieces = [data[a:b] for a, b in zip([0] + cuts, cuts + [len(data)])]
        gaps = req.get("gaps", [])
        when = sched.SIM.now + req.get("at", 0.0)
        for i, piece in enumerate(pieces):
            if i and gaps:
                when += gaps[(i - 1) % len(gaps)]
            last = i == len(pieces) - 1
            sched.SIM.at(when, lambda p=piece, fin=last: self.loop.post(lambda: self._send(p, fin)))
        if len(pieces) > 1:
            self.world.state.fire("split_request")

    def _send(self, data: bytes, last: bool):
        if self.closed_at is not None:
            return
        end = self.plan.get("end")
        if end and "after_bytes" in end and self.sent + len(data) >= end["after_bytes"]:
            data = data[: max(0, end["after_bytes"] - self.sent)]
            if data:
                self.sent += len(data)
                self.transport.feed(data)
            sched.SIM.after(end.get("delay", 0.0), lambda: self.loop.post(self._end))
            return
        self.sent += len(data)
        self.transport.feed(data)
        if last:
            self.sending = False
            self._next_item()

    def _end(self):
        if self.closed_at is not None or self.transport is None:
            return
        kind = self.plan["end"]["kind"]
        self.closed_by, self.closed_taken = "client", self.taken
        sched.SIM.log("client_close", conn=self.number, how=kind)
        self.world.state.fire(f"client_{kind}")
        self.closed_at = sched.SIM.now
        if kind == "rst":
            self.transport.reset()
        else:
            self.transport.feed_eof()
        self.world.check_done()

    def receive(self, data: bytes):
        if self.closed_by == "client":
            return
        before = len(self.parser.replies)
        self.parser.feed(data)
        after = len(self.parser.replies)
        for reply in self.parser.replies[before:after]:
            sched.SIM.log("reply", conn=self.number, pos=before, status=reply.status, size=len(reply.body))
            self.world.on_reply(self, before, reply)
            before += 1
        if after and self.item < len(self.items) and after >= self.item:
            # a client waiting for this reply goes on, unless it has not even sent all of the request yet
            self.loop.post(lambda pos=self.item: self.item == pos and not self.sending and self._next_item())
        self.world.check_done()

    def server_closed(self):
        if self.closed_at is None:
            self.closed_at = sched.SIM.now
            self.closed_by = "server"
            self.closed_taken = self.taken
            sched.SIM.log("server_close", conn=self.number)
            self.parser.ended = True
            self.receive(b"")
            self.world.check_done()

    def over(self) -> bool:
        if self.closed_at is not None:
            return True
        return len(self.parser.replies) >= len(self.items) and not (
            self.plan.get("end") and "after_bytes" not in self.plan["end"] and self.closed_at is None
        )
