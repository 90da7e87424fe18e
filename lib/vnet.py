"""A network inside the process, for runs of vsched: TCP sockets, select and poll
with the behaviour of Linux, and a serial line with the interface of pyserial.
Nothing here uses real sockets.  Every operation is a scheduling point."""
import errno
import select
import selectors
import socket
import sys

import vsched

_real_socket_class = socket.socket


def run():
    r = vsched.managed()
    if r is None:
        raise RuntimeError("network used outside of a run")
    return r


def net():
    r = run()
    if not hasattr(r, "net"):
        r.net = Net(r)
    return r.net


class Net(object):
    def __init__(self, r):
        self.run = r
        self.listeners = {}
        self.lingering = {}     # port -> until when a connection which was closed here first keeps it
        self.deaf = set()       # ports whose connection attempts get no answer
        self.fds = {}
        self.next_fd = 100
        self.next_port = 40000
        self.faults = {}          # operation name -> list of exceptions (or None) for its next calls
        self.tap = None           # called with (event, socket, data)
        self.capacity = None      # bytes a socket buffers for its peer (None: unlimited)

    def fault(self, name):
        lst = self.faults.get(name)
        if lst:
            exc = lst.pop(0)
            if exc is not None:
                raise exc

    def event(self, what, sock, data=None):
        if self.tap:
            self.tap(what, sock, data)


def _err(cls, code):
    import os
    return cls(code, os.strerror(code))


class VSocket(object):
    """one end of a virtual TCP connection"""

    def __init__(self, family=socket.AF_INET, type=socket.SOCK_STREAM, proto=0, fileno=None):
        self.net = net()
        self.family, self.type, self.proto = family, type, proto
        self.fd = self.net.next_fd
        self.net.next_fd += 1
        self.net.fds[self.fd] = self
        self.timeout = None
        self.rx = bytearray()
        self.eof = False            # the peer will send nothing more
        self.reset = None           # pending error
        self.dead = False           # the connection was reset: nothing can be sent
        self.peer = None
        self.closed = False
        self.shut_wr = False
        self.bound = None
        self.backlog = None
        self.name = None            # label given by the harness
        self.remote = None
        self.total_rx = 0           # bytes taken by recv
        self.server_side = False
        self.cap = None             # bytes buffered for this end (None: as for the whole net)
        self.reuse = False          # SO_REUSEADDR

    # --- context
    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()

    def __del__(self):
        try:
            if not self.closed and not self.net.run.aborting and vsched.managed() is self.net.run:
                self._close()
        except Exception:
            pass

    def __repr__(self):
        return "<VSocket fd=%d>" % self.fd

    def _check(self):
        if self.closed:
            raise _err(OSError, errno.EBADF)

    def fileno(self):
        return -1 if self.closed else self.fd

    def setblocking(self, flag):
        self._check()
        self.timeout = None if flag else 0.0

    def getblocking(self):
        return self.timeout != 0.0

    def settimeout(self, value):
        self._check()
        if value is not None and value < 0:
            raise ValueError("Timeout value out of range")
        self.timeout = None if value is None else float(value)

    def gettimeout(self):
        return self.timeout

    def setsockopt(self, *args):
        self._check()
        if args[:2] == (socket.SOL_SOCKET, socket.SO_REUSEADDR):
            self.reuse = bool(args[2])

    def getsockopt(self, level, opt, *args):
        if opt == socket.SO_ERROR:
            return 0
        return 1

    def set_inheritable(self, flag):
        pass

    # --- server
    def bind(self, addr):
        self._check()
        self.net.run.point("bind")
        self.net.fault("bind")
        port = addr[1]
        if port == 0:
            self.net.next_port += 1
            port = self.net.next_port
        if port in self.net.listeners:
            raise _err(OSError, errno.EADDRINUSE)
        if not self.reuse and (self.net.lingering.get(port, -1) > self.net.run.now or any(
                isinstance(s, VSocket) and s.backlog is None and s.bound and s.bound[1] == port
                for s in self.net.fds.values())):
            raise _err(OSError, errno.EADDRINUSE)
        self.bound = (addr[0], port)

    def listen(self, backlog=10):
        self._check()
        if self.bound[1] in self.net.listeners:
            raise _err(OSError, errno.EADDRINUSE)
        self.backlog = []
        self.net.listeners[self.bound[1]] = self
        self.net.event("listen", self)

    def accept(self):
        self._check()
        self.net.run.point("accept")
        self.net.fault("accept")
        self._wait(lambda: self.backlog or self.closed)
        self._check()
        sock = self.backlog.pop(0)
        sock.server_side = True
        self.net.event("accept", sock)
        return sock, sock.remote

    # --- client
    def connect(self, addr):
        self._check()
        self.net.run.point("connect")
        self.net.fault("connect")
        if not isinstance(addr, tuple) or not isinstance(addr[0], str) or not isinstance(addr[1], int):
            raise TypeError("address must be (str, int)")
        if self.peer is not None or self.eof:
            raise _err(OSError, errno.EISCONN)
        lst = self.net.listeners.get(addr[1])
        if lst is None and addr[1] in self.net.deaf:
            # nothing answers: only the timeout ends it, or the kernel after about two minutes
            self.net.run.block(lambda: False, 127.0 if self.timeout is None else self.timeout, "socket")
            raise socket.timeout("timed out") if self.timeout is not None else _err(TimeoutError, errno.ETIMEDOUT)
        if lst is None:
            raise _err(ConnectionRefusedError, errno.ECONNREFUSED)
        other = VSocket()
        self.net.next_port += 1
        self.bound = self.bound or ("127.0.0.1", self.net.next_port)
        other.bound = lst.bound
        other.remote = self.bound
        self.remote = ("127.0.0.1", addr[1])
        self.peer, other.peer = other, self
        other.name = self.name
        lst.backlog.append(other)
        self.net.event("connect", self)

    def connect_ex(self, addr):
        try:
            self.connect(addr)
        except OSError as exc:
            return exc.errno
        return 0

    def getpeername(self):
        if self.peer is None:
            raise _err(OSError, errno.ENOTCONN)
        return self.remote

    def getsockname(self):
        return self.bound or ("0.0.0.0", 0)

    # --- data
    def _wait(self, pred):
        if pred():
            return
        if self.timeout == 0.0:
            raise _err(BlockingIOError, errno.EAGAIN)
        if not self.net.run.block(pred, self.timeout, "socket"):
            raise socket.timeout("timed out")

    def _readable(self):
        if self.closed:
            return True
        if self.backlog is not None:
            return bool(self.backlog)
        if self.peer is None and not self.eof:
            return True        # not connected: POLLHUP
        return bool(self.rx) or self.eof or self.reset is not None or self.dead

    def _room(self):
        return self.net.capacity if self.peer.cap is None else self.peer.cap

    def _writable(self):
        if self.closed or self.dead or self.peer is None:
            return True
        cap = self._room()
        return cap is None or len(self.peer.rx) < cap

    def recv(self, size, flags=0):
        self._check()
        self.net.run.point("recv")
        self.net.fault("recv")
        if self.backlog is not None or (self.peer is None and not self.eof and not self.dead):
            raise _err(OSError, errno.ENOTCONN)
        if size == 0:
            return b""
        wait_all = bool(flags & socket.MSG_WAITALL) and self.timeout != 0.0
        if flags & getattr(socket, "MSG_DONTWAIT", 0) and not (self.rx or self.eof or self.reset or self.dead):
            raise _err(BlockingIOError, errno.EAGAIN)
        need = size if wait_all else 1
        self._wait(lambda: len(self.rx) >= need or self.eof or self.reset is not None or self.dead or self.closed)
        self._check()
        if self.rx:
            data = bytes(self.rx[:size])
            if not flags & socket.MSG_PEEK:
                del self.rx[:size]
                self.total_rx += len(data)
                self.net.event("recv", self, data)
            return data
        if self.reset is not None:
            exc, self.reset = self.reset, None
            raise exc
        return b""

    def recv_into(self, buf, nbytes=0, flags=0):
        data = self.recv(nbytes or len(buf), flags)
        buf[:len(data)] = data
        return len(data)

    def recvfrom(self, size, flags=0):
        return self.recv(size, flags), self.remote

    def _deliver(self, data):
        """hand data over to the peer. Returns the number of bytes taken"""
        if self.dead:
            raise _err(BrokenPipeError, errno.EPIPE)
        if self.peer is None:
            raise _err(OSError, errno.ENOTCONN)
        if self.shut_wr:
            raise _err(BrokenPipeError, errno.EPIPE)
        cap = self._room()
        peer = self.peer
        if peer.closed:
            # the peer answers with a reset
            self.net.event("lost", self, bytes(data))
            self.dead = True
            self.reset = _err(ConnectionResetError, errno.ECONNRESET) if not self.rx else None
            return len(data)
        if cap is not None:
            data = data[:max(0, cap - len(peer.rx))]
        peer.rx += data
        self.net.event("send", self, bytes(data))
        return len(data)

    def send(self, data, flags=0):
        self._check()
        data = bytes(memoryview(data))
        self.net.run.point("send")
        self.net.fault("send")
        if self.reset is not None and self.dead:
            exc, self.reset = self.reset, None
            raise exc
        self._wait(self._writable)
        self._check()
        return self._deliver(data)

    def sendall(self, data, flags=0):
        data = bytes(memoryview(data))
        # the timeout is that of the whole call
        total = self.timeout
        end = None if not total else self.net.run.now + total
        try:
            while True:
                data = data[self.send(data):]
                if not data:
                    break
                if end is not None:
                    self.timeout = end - self.net.run.now
                    if self.timeout <= 0:
                        raise socket.timeout("timed out")
        finally:
            self.timeout = total

    def shutdown(self, how):
        self._check()
        self.net.run.point("shutdown")
        if self.peer is None:
            raise _err(OSError, errno.ENOTCONN)
        if how in (socket.SHUT_WR, socket.SHUT_RDWR):
            self.shut_wr = True
            self.peer.eof = True
        if how in (socket.SHUT_RD, socket.SHUT_RDWR):
            self.eof = True

    def _close(self):
        if self.closed:
            return
        self.closed = True
        self.net.fds.pop(self.fd, None)
        self.net.event("close", self)
        if self.backlog is not None:
            if self.net.listeners.get(self.bound[1]) is self:
                del self.net.listeners[self.bound[1]]
            for sock in self.backlog:
                sock.abort()
            self.backlog = None
        if self.peer is not None and not self.dead:
            if self.rx:
                self.peer._reset()
            else:
                self.peer.eof = True
                if not self.eof:
                    # the end which closes first remembers the connection for a minute
                    self.net.lingering[self.bound[1]] = self.net.run.now + 60

    def _reset(self):
        self.dead = True
        if self.reset is None:
            self.reset = _err(ConnectionResetError, errno.ECONNRESET)

    def abort(self):
        """close with a reset (SO_LINGER 0)"""
        if self.closed:
            return
        self.closed = True
        self.net.fds.pop(self.fd, None)
        self.net.event("abort", self)
        if self.peer is not None and not self.dead:
            self.peer._reset()

    def close(self):
        r = vsched.managed()
        if r is self.net.run and not self.closed and not r.aborting:
            r.point("close")
        self._close()

    def finish(self):
        """close when everything has been read: the other end reads to the end"""
        del self.rx[:]
        self.close()

    def detach(self):
        self.closed = True
        return self.fd

    def makefile(self, mode="r", *args, **kwargs):
        raise NotImplementedError("makefile")


def _of(obj):
    if hasattr(obj, "fileno"):
        fd = obj.fileno()
    else:
        fd = obj
    if fd < 0:
        raise ValueError("file descriptor cannot be a negative integer (-1)")
    sock = net().fds.get(fd)
    if sock is None:
        raise _err(OSError, errno.EBADF)
    return sock


def v_select(rlist, wlist, xlist, timeout=None):
    r = run()
    r.point("select")
    net().fault("select")
    rs = [(o, _of(o)) for o in rlist]
    ws = [(o, _of(o)) for o in wlist]
    [_of(o) for o in xlist]
    if timeout is not None and timeout < 0:
        raise ValueError("timeout must be non-negative")

    def ready():
        return any(s._readable() for _, s in rs) or any(s._writable() for _, s in ws)
    if not ready() and timeout != 0:
        r.block(ready, timeout, "select")
    return [o for o, s in rs if s._readable()], [o for o, s in ws if s._writable()], []


class VPoll(object):
    def __init__(self):
        self.reg = {}

    def register(self, fd, mask=None):
        self.reg[fd if isinstance(fd, int) else fd.fileno()] = select.POLLIN if mask is None else mask

    modify = register

    def unregister(self, fd):
        del self.reg[fd if isinstance(fd, int) else fd.fileno()]

    def poll(self, timeout=None):
        r = run()
        r.point("poll")
        fds = net().fds

        def events():
            res = []
            for fd, mask in self.reg.items():
                sock = fds.get(fd)
                if sock is None:
                    res.append((fd, getattr(select, "POLLNVAL", 32)))
                    continue
                ev = 0
                if mask & select.POLLIN and sock._readable():
                    ev |= select.POLLIN
                if mask & select.POLLOUT and sock._writable():
                    ev |= select.POLLOUT
                if ev:
                    res.append((fd, ev))
            return res
        if not events() and timeout != 0:
            r.block(lambda: bool(events()), None if timeout is None or timeout < 0 else timeout / 1000.0, "poll")
        return events()


def v_create_connection(address, timeout=None, source_address=None, **kwargs):
    sock = VSocket()
    if isinstance(timeout, (int, float)):
        sock.settimeout(timeout)
    sock.connect(address)
    return sock


class VStdin(object):
    """a console: lines typed by the scenario"""

    def __init__(self):
        self.net = net()
        self.fd = 0
        self.net.fds[0] = self
        self.lines = []

    def fileno(self):
        return 0

    def _readable(self):
        return bool(self.lines)

    def _writable(self):
        return False

    def type(self, line):
        self.lines.append(line)

    def readline(self):
        r = run()
        r.point("readline")
        if not self.lines:
            r.block(lambda: bool(self.lines), None, "stdin")
        return self.lines.pop(0)


# ---------------------------------------------------------------- serial line
class VSerialError(IOError):
    """what a serial port raises (pyserial's SerialException is an IOError too)"""


class VSerial(object):
    """pyserial's interface over a virtual line.  The scenario feeds it with
    feed(), in zero time, and times the bytes by sleeping in between."""

    def __init__(self, baudrate=9600, is_open=False, timeout=None, inter=False):
        self.name = "virtual"
        self.port = "virtual"
        self.baudrate = baudrate
        self.is_open = is_open
        self.timeout = timeout
        self.write_timeout = None
        self.inter_byte_timeout = None
        self.honour_inter = inter
        self.rx = bytearray()
        self.cancelled = False
        self.tap = None             # tap(what, data)
        self.read_faults = []       # exceptions or None, for the next reads
        self.open_faults = []
        self.write_faults = []
        self.on_write = None        # called with the bytes written
        self.echo = False

    def event(self, what, data=None):
        if self.tap:
            self.tap(what, data)

    def _need_open(self):
        if not self.is_open:
            raise VSerialError("Attempting to use a port that is not open")

    def feed(self, data):
        """bytes arrive on the line"""
        if self.is_open:
            self.rx += data
            self.event("arrive", bytes(data))
        else:
            self.event("missed", bytes(data))

    # --- pyserial
    def open(self):
        run().point("serial.open")
        if self.is_open:
            raise VSerialError("Port is already open.")
        if self.open_faults:
            exc = self.open_faults.pop(0)
            if exc is not None:
                raise exc
        self.is_open = True
        self.rx = bytearray()
        self.cancelled = False
        self.event("open")

    def close(self):
        r = vsched.managed()
        if r is not None and not r.aborting:
            r.point("serial.close")
        if self.is_open:
            self.is_open = False
            self.event("close")

    def isOpen(self):
        return self.is_open

    @property
    def in_waiting(self):
        run().point("in_waiting")
        self._need_open()
        return len(self.rx)

    def inWaiting(self):
        return self.in_waiting

    def read(self, size=1):
        r = run()
        r.point("serial.read")
        self._need_open()
        if self.read_faults:
            exc = self.read_faults.pop(0)
            if exc is not None:
                self.event("fault")
                raise exc
        out = bytearray()
        end = None if self.timeout is None else r.now + self.timeout
        while len(out) < size:
            left = None if end is None else end - r.now
            if not self.rx and not self.cancelled:
                if left is not None and left <= 0:
                    break
                wait = left
                if out and self.honour_inter and self.inter_byte_timeout is not None:
                    wait = self.inter_byte_timeout if left is None else min(left, self.inter_byte_timeout)
                if not r.block(lambda: self.rx or self.cancelled or not self.is_open or self.read_faults, wait,
                               "serial"):
                    break
                if not self.is_open:
                    raise VSerialError("read failed: the port was closed")
                if self.read_faults:
                    exc = self.read_faults.pop(0)
                    if exc is not None:
                        self.event("fault")
                        raise exc
            if self.cancelled:
                self.cancelled = False
                break
            take = min(size - len(out), len(self.rx))
            out += self.rx[:take]
            del self.rx[:take]
        self.event("read", bytes(out))
        return bytes(out)

    def write(self, data):
        r = run()
        r.point("serial.write")
        self._need_open()
        if self.write_faults:
            exc = self.write_faults.pop(0)
            if exc is not None:
                self.event("fault")
                raise exc
        data = bytes(data)
        if self.echo:
            self.rx += data
        self.event("write", data)
        if self.on_write:
            self.on_write(data)
        return len(data)

    def flush(self):
        run().point("serial.flush")
        self._need_open()

    def reset_input_buffer(self):
        run().point("serial.flush")
        self._need_open()
        self.rx = bytearray()
        self.event("reset_input")

    def reset_output_buffer(self):
        self._need_open()

    flushInput = reset_input_buffer
    flushOutput = reset_output_buffer

    def cancel_read(self):
        run().point("serial.cancel")
        if self.is_open:
            self.cancelled = True

    def read_all(self):
        return self.read(self.in_waiting)

    def reset_output(self):
        pass


def install():
    socket.socket = VSocket
    socket.SocketType = VSocket
    socket.create_connection = v_create_connection
    select.select = v_select
    select.poll = VPoll
    selectors.PollSelector._selector_cls = VPoll
    selectors.DefaultSelector = selectors.PollSelector
    import socketserver
    socketserver._ServerSelector = selectors.PollSelector
