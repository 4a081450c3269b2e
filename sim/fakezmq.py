"""In-memory replacement of the zmq contexts and sockets, driven by the simulation.

Semantics kept from libzmq: ROUTER prefixes the sender's identity and silently drops messages to unknown peers, DEALER
and PAIR are FIFO links, PUB never blocks, a PAIR without peer makes an asynchronous sender wait, operations on a closed
socket raise ZMQError, sends that can be queued complete without suspending the caller, ROUTER and PUB drop what exceeds
the high water mark they were given (scaled down: a peer takes nothing while time stands still).
"""
import asyncio
import collections
import os

import zmq
import zmq.asyncio

from .kernel import SimKilled, World, kick


class Link:
    """one direction of one connection; the driver may hold messages back"""

    def __init__(self, net, name, dst=None, callback=None, auto=True):
        self.net, self.name, self.dst, self.callback, self.auto = net, name, dst, callback, auto
        self.queue = collections.deque()
        self.cut = False  # messages vanish

    def put(self, frames):
        if self.cut:
            return
        self.queue.append(frames)
        if self.auto:
            self.flush()

    def deliver(self):
        frames = self.queue.popleft()
        self.net.world.touch()
        if self.callback is not None:
            self.callback(frames)
        elif self.dst is not None and not self.dst.closed:
            self.dst.push(frames)

    def flush(self):
        while self.queue:
            self.deliver()


class Net:
    def __init__(self, world, auto=True):
        self.world = world
        world.net = self
        self.auto = auto
        self.pair_auto = auto
        self.bound = {}  # address -> socket
        self.pending = collections.defaultdict(list)  # address -> connecting sockets
        self.links = {}  # (address, ident, 'up'|'down') -> Link
        self.on_send = None  # hook(sock, frames)
        self.on_recv = None
        self.on_publish = None
        self.scratch = None
        self.instance_ctx = {}
        self.sockets = []
        self.late_notice = None  # may a PAIR be late to find out that its peer is gone?
        self.zombies = []

    # modelled peers of a ROUTER
    def add_peer(self, address, ident, callback):
        self.links[(address, ident, "down")] = Link(self, f"->{ident!r}", callback=callback, auto=True)

    def drop_peer(self, address, ident):
        self.links.pop((address, ident, "down"), None)

    def inject(self, address, frames):
        self.bound[address].push(list(frames))

    # sockets
    def bind(self, sock, address):
        if address in self.bound and not self.bound[address].closed:
            raise zmq.ZMQError(zmq.EADDRINUSE)
        self.bound[address] = sock
        if address.startswith("ipc://") and self.scratch and address[6:].startswith(self.scratch):
            with open(address[6:], "w"):
                pass
        for s in self.pending.pop(address, []):
            self._attach(s, sock, address)

    def connect(self, sock, address):
        b = self.bound.get(address)
        if b is None or b.closed:
            self.pending[address].append(sock)
        else:
            self._attach(sock, b, address)

    def _attach(self, s, b, address):
        if s.closed:
            return
        if b.type == zmq.PAIR:
            if b.zombie or (b.pair is not None and not b.pair.closed):
                self.pending[address].append(s)  # libzmq: only one peer at a time
                return
            b.pair, s.pair = s, b
            s.up = Link(self, ("pair-up", address), dst=b, auto=self.pair_auto)
            b.up = Link(self, ("pair-down", address), dst=s, auto=self.pair_auto)
            self.links[(address, s.ident, "up")] = s.up
            self.links[(address, s.ident, "down")] = b.up
            for fr in s.early:
                s.up.put(fr)
            s.early.clear()
            for fut, frames in b.blocked_sends:
                if not fut.done():
                    b.up.put(frames)
                    fut.set_result(None)
                    kick(b.owner)
            b.blocked_sends.clear()
        else:
            s.up = Link(self, ("up", s.ident), dst=b, auto=self.auto)
            self.links[(address, s.ident, "up")] = s.up
            self.links[(address, s.ident, "down")] = Link(self, ("down", s.ident), dst=s, auto=self.auto)
            for fr in s.early:
                s.up.put(fr)
            s.early.clear()

    def detach(self, s):
        """socket closed"""
        for address, lst in self.pending.items():
            if s in lst:
                lst.remove(s)
        if s.type == zmq.PAIR:
            p = s.pair
            if p is not None and not p.closed:
                p.pair = None
                # messages already handed to the peer stay there; what the link still holds is lost
                p.up = None
                if p.bound and self.late_notice is not None and self.late_notice():
                    p.zombie = True
                    self.zombies.append(p)
                else:
                    self._next_pair(p)
        elif s.type == zmq.DEALER and s.address is not None:
            self.links.pop((s.address, s.ident, "down"), None)
        if s.bound and self.bound.get(s.address) is s:
            del self.bound[s.address]

    def _next_pair(self, p):
        if p.bound and self.pending.get(p.address):
            self._attach(self.pending[p.address].pop(0), p, p.address)

    def notice(self, p):
        """the bound end of a PAIR finds out that its peer is gone; until then what it sends is lost"""
        self.zombies.remove(p)
        p.zombie = False
        self.world.touch()
        self._next_pair(p)

    def overflows(self, s, to):
        """would this message exceed what the socket keeps for a peer?"""
        if not s.hwm:
            return False
        if s.burst_at != self.world.now:
            s.burst_at = self.world.now
            s.burst.clear()
        s.burst[to] += 1
        return s.burst[to] > max(1, s.hwm // 100)

    def route(self, s, frames):
        self.world.touch()
        if s.type in (zmq.PUB, zmq.ROUTER) and self.overflows(s, frames[0] if s.type == zmq.ROUTER else b""):
            return True
        if self.on_send is not None:
            self.on_send(s, frames)
        if s.type == zmq.PUB:
            if self.on_publish is not None:
                self.on_publish(s, frames)
            return True
        if s.type == zmq.ROUTER:
            link = self.links.get((s.address, frames[0], "down"))
            if link is not None:
                link.put(list(frames[1:]))
            return True
        if s.type == zmq.DEALER:
            fr = [s.ident, *frames]
            if s.up is None:
                s.early.append(fr)
            else:
                s.up.put(fr)
            return True
        if s.type == zmq.PAIR:
            if s.zombie:
                return True
            if s.pair is None or s.pair.closed:
                if s.bound:
                    return False
                s.early.append(list(frames))
                return True
            s.up.put(list(frames))
            return True
        raise NotImplementedError(s.type)


class _SocketBase:
    def __init__(self, ctx, type_):
        w = World.current
        self.world = w
        self.net = w.net
        self.ctx = ctx
        self.type = type_
        self.ident = None
        self.address = None
        self.bound = False
        self.closed = False
        self.inbox = collections.deque()
        self.waiters = collections.deque()
        self.pair = None
        self.zombie = False
        self.up = None
        self.early = []
        self.blocked_sends = []
        self.owner = w.me()
        self.user = {}
        self.hwm = 1000
        self.burst = collections.Counter()
        self.burst_at = None
        self.net.sockets.append(self)

    def setsockopt(self, opt, value):
        if opt == zmq.IDENTITY:
            self.ident = bytes(value)
        elif opt == zmq.SNDHWM:
            self.hwm = value

    def set_hwm(self, value):
        self.hwm = value

    def setsockopt_string(self, opt, value, encoding="utf-8"):
        self.setsockopt(opt, value.encode(encoding))

    set = setsockopt

    def __setattr__(self, k, v):
        if k in ("identity", "IDENTITY"):
            object.__setattr__(self, "ident", bytes(v))
            return
        if k in ("sndhwm", "SNDHWM"):
            k = "hwm"
        object.__setattr__(self, k, v)

    def bind(self, address):
        self._check()
        self.address, self.bound = address, True
        self.net.bind(self, address)

    def connect(self, address):
        self._check()
        self.address = address
        if self.ident is None:
            self.ident = f"anon-{id(self)}".encode()
        self.net.connect(self, address)

    def close(self, linger=None):
        if self.closed:
            return
        self.closed = True
        self.net.detach(self)
        while self.waiters:
            f = self.waiters.popleft()
            if not f.done():
                f.cancel()

    def _check(self):
        me = self.world.me()
        if me is not None and me.killed:
            raise SimKilled()
        if self.closed:
            raise zmq.ZMQError(zmq.ENOTSOCK)

    def push(self, frames):
        """a message arrived"""
        self.inbox.append(list(frames))
        self.world.touch()
        while self.waiters:
            f = self.waiters.popleft()
            if not f.done():
                f.set_result(None)
                break
        kick(self.owner)

    def _take(self):
        frames = self.inbox.popleft()
        self.world.touch()
        if self.net.on_recv is not None:
            self.net.on_recv(self, frames)
        return list(frames)


class AsyncSocket(_SocketBase):
    async def recv_multipart(self, flags=0, copy=True, track=False):
        self._check()
        while not self.inbox:
            f = asyncio.get_running_loop().create_future()
            self.waiters.append(f)
            await f
            self._check()
        return self._take()

    def send_multipart(self, frames, flags=0, copy=True, track=False, **kw):
        self._check()
        frames = [bytes(f) for f in frames]
        fut = asyncio.get_event_loop().create_future()
        if self.net.route(self, frames):
            fut.set_result(None)
        else:
            self.blocked_sends.append((fut, frames))
        return fut

    async def poll(self, timeout=None, flags=zmq.POLLIN):
        self._check()
        loop = asyncio.get_running_loop()
        if not self.inbox:
            f = loop.create_future()
            self.waiters.append(f)
            try:
                await asyncio.wait_for(f, None if timeout is None else timeout / 1000)
            except asyncio.TimeoutError:
                return 0
        return zmq.POLLIN if self.inbox else 0


class SyncSocket(_SocketBase):
    def _wait(self, seconds):
        me = self.world.me()
        if me is None:
            return
        w = self.world
        wake = None if seconds is None else w.now + seconds
        me.yield_("poll", info=self, pred=lambda: bool(self.inbox) or self.closed, wake_at=wake)

    def poll(self, timeout=None, flags=zmq.POLLIN):
        self._check()
        self._wait(None if timeout is None or timeout < 0 else timeout / 1000)
        self._check()
        return zmq.POLLIN if self.inbox else 0

    def recv_multipart(self, flags=0, copy=True, track=False):
        self._check()
        while not self.inbox:
            if flags & zmq.NOBLOCK:
                raise zmq.Again()
            self._wait(None)
            self._check()
        return self._take()

    def send_multipart(self, frames, flags=0, copy=True, track=False, **kw):
        self._check()
        frames = [bytes(f) for f in frames]
        while not self.net.route(self, frames):
            self._wait(0.05)
            self._check()


class _Context:
    socket_class = None

    def __init__(self, io_threads=1, **kw):
        self.sockets = []
        self.closed = False

    def socket(self, type_, *a, **kw):
        s = self.socket_class(self, type_)
        self.sockets.append(s)
        return s

    def destroy(self, linger=None):
        for s in self.sockets:
            s.close()
        self.closed = True

    def term(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.destroy()


class AsyncContext(_Context):
    socket_class = AsyncSocket

    @classmethod
    def instance(cls, io_threads=1):
        return cls()


class SyncContext(_Context):
    socket_class = SyncSocket

    @classmethod
    def instance(cls, io_threads=1):
        net = World.current.net
        me = World.current.me()
        proc = me.user.get("process") if me is not None else None  # one per process
        if net.instance_ctx.get(proc) is None or net.instance_ctx[proc].closed:
            net.instance_ctx[proc] = cls()
        return net.instance_ctx[proc]


def install():
    zmq.Context = SyncContext
    zmq.asyncio.Context = AsyncContext
