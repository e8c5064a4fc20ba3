"""Deterministic virtual-time asyncio environment.

Must be imported BEFORE anything from givenergy_modbus: it replaces ``datetime.datetime``
and the ``time`` clocks with virtual ones so that every stamp the library takes is on the
same simulated clock as the event loop.  No real sleeping happens anywhere.
"""
import asyncio
import datetime as _dt
import os
import random
import selectors
import sys
import time as _time

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

real_monotonic = _time.monotonic
_RealDT = _dt.datetime
EPOCH = _RealDT(2025, 1, 1, 0, 0, 0, tzinfo=_dt.UTC)


class Clock:
    now = 0.0  # seconds since EPOCH


CLOCK = Clock()


class _Meta(type(_RealDT)):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _RealDT)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, _RealDT)


class VirtualDatetime(_RealDT, metaclass=_Meta):
    @classmethod
    def now(cls, tz=None):
        t = EPOCH + _dt.timedelta(seconds=CLOCK.now)
        return t.astimezone(tz) if tz is not None else t.replace(tzinfo=None)

    @classmethod
    def utcnow(cls):
        return (EPOCH + _dt.timedelta(seconds=CLOCK.now)).replace(tzinfo=None)


_dt.datetime = VirtualDatetime


def at(seconds):
    """Virtual timestamp as a plain aware datetime."""
    return EPOCH + _dt.timedelta(seconds=seconds)


def secs(dt):
    return (dt - EPOCH).total_seconds()


class _Selector(selectors.SelectSelector):
    def select(self, timeout=None):
        if timeout is None:
            raise Deadlock("event loop has nothing scheduled")
        if timeout > 0:
            CLOCK.now += timeout
        return []


class Deadlock(Exception):
    pass


class VirtualLoop(asyncio.SelectorEventLoop):
    def __init__(self):
        super().__init__(_Selector())
        self._clock_resolution = 1e-9
        self.unhandled = []
        self.set_exception_handler(lambda loop, ctx: self.unhandled.append(ctx))

    def time(self):
        return CLOCK.now

    servers: dict = {}

    async def create_server(self, factory, host=None, port=None, **kw):
        s = Server(factory, host, port or 40000 + len(self.servers))
        self.servers = {**self.servers, s.port: s}
        return s


class Server:
    """What listens on the simulated network; ``call`` opens a connection to it."""

    def __init__(self, factory, host, port):
        self.factory, self.host, self.port, self.sockets = factory, host, port, [self]
        self.listening = True

    def getsockname(self):
        return self.host, self.port

    def is_serving(self):
        return self.listening

    def close(self):
        self.listening, self.sockets = False, []

    async def wait_closed(self):
        pass

    def call(self, on_data):
        """-> transport of the server's end; its writes go to on_data, feed ``transport.protocol.data_received``."""
        t = FakeTransport(asyncio.get_running_loop(), on_data)
        t.protocol = self.factory()
        t.protocol.connection_made(t)
        return t


def run(coro_fn, limit=None):
    """Run ``coro_fn()`` on a fresh virtual loop starting at t=0."""
    CLOCK.now = 0.0
    loop = VirtualLoop()
    asyncio.set_event_loop(loop)
    try:
        main = loop.create_task(coro_fn())
        res = loop.run_until_complete(main)
        return res
    finally:
        try:
            pend = [t for t in asyncio.all_tasks(loop) if not t.done()]
            for t in pend:
                t.cancel()
            if pend:
                loop.run_until_complete(asyncio.gather(*pend, return_exceptions=True))
        finally:
            asyncio.set_event_loop(None)
            loop.close()


class FakeTransport(asyncio.Transport):
    """A TCP transport without a socket; the real StreamReaderProtocol and StreamWriter sit on top."""

    def __init__(self, loop, on_write):
        super().__init__()
        self.loop, self.on_write, self.protocol = loop, on_write, None
        self.closing = self.gone = False

    def write(self, data):
        if not self.gone:
            self.on_write(bytes(data))

    def writelines(self, datas):
        self.write(b"".join(datas))

    def is_closing(self):
        return self.closing

    def close(self):
        if not self.closing:
            self.closing = True
            self.loop.call_soon(self.lose, None)

    def abort(self):
        self.close()

    def lose(self, exc):
        self.closing = True
        if not self.gone:
            self.gone = True
            self.protocol.connection_lost(exc)

    def can_write_eof(self):
        return True

    def write_eof(self):
        pass

    def pause_reading(self):
        pass

    def resume_reading(self):
        pass

    def is_reading(self):
        return not self.closing

    def get_write_buffer_size(self):
        return 0

    def set_write_buffer_limits(self, high=None, low=None):
        pass

    def get_extra_info(self, name, default=None):
        return default

    def set_protocol(self, protocol):
        self.protocol = protocol

    def get_protocol(self):
        return self.protocol


class Link:
    """One simulated TCP connection."""

    def __init__(self, net, idx):
        self.net = net
        self.idx = idx
        loop = asyncio.get_running_loop()
        self.reader = asyncio.StreamReader(loop=loop)
        self.protocol = asyncio.StreamReaderProtocol(self.reader, loop=loop)
        self.transport = FakeTransport(loop, lambda b: net.on_tx(self, b))
        self.transport.protocol = self.protocol
        self.protocol.connection_made(self.transport)
        self.writer = asyncio.StreamWriter(self.transport, self.protocol, self.reader, loop)
        self.ended = False

    @property
    def open(self):
        """The client has not closed its socket."""
        return not self.transport.closing

    def rx(self, data):
        if self.transport.closing or self.ended:
            return False
        self.protocol.data_received(data)
        return True

    def eof(self):
        if not self.ended and not self.transport.gone:
            self.ended = True
            self.protocol.eof_received()

    def reset(self, exc=None):
        """The transport dies with an error (peer RST, keep-alive timeout, no route)."""
        self.ended = True
        self.transport.lose(exc or ConnectionResetError(104, "Connection reset by peer"))

    def stall(self):
        self.protocol.pause_writing()

    def resume(self):
        if not self.transport.gone:
            self.protocol.resume_writing()


class Net:
    """Replaces asyncio.open_connection. ``on_tx(link, bytes)`` set by the scenario."""

    def __init__(self):
        self.links = []
        self.on_tx = lambda link, data: None
        self.refuse = False
        self.hang = False
        self.slow = 0

    async def open(self, *a, **kw):
        if self.hang:
            await asyncio.Event().wait()
        if self.refuse:
            raise ConnectionRefusedError(111, "refused")
        await asyncio.sleep(self.slow)
        link = Link(self, len(self.links))
        self.links.append(link)
        return link.reader, link.writer

    def __enter__(self):
        self._saved = asyncio.open_connection
        asyncio.open_connection = self.open
        return self

    def __exit__(self, *exc):
        asyncio.open_connection = self._saved

    @property
    def link(self):
        return self.links[-1]
