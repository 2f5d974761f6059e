"""A simulated operating environment (tty, input, signals, processes, files, variables).

`install()` replaces a fixed list of OS entry points by dispatchers *before* slate is
imported, in the symbolic engine and in the concrete replayer alike.  A dispatcher does
what the real call does unless a harness has activated an `Env`; then the call acts on
that Env and is recorded.  So no code under test ever touches the real terminal, runs a
process or writes a file while a harness runs.
"""

import builtins
import contextlib
import os
import select as _select
import shutil
import signal
import subprocess
import sys
import termios
import threading
import tty

_installed = False
_current = None


class Blocked(BaseException):
    """The code under test waits for input that never comes."""


class FakeStdin:
    encoding = "utf-8"
    errors = "strict"
    name = "<stdin>"
    mode = "r"

    def isatty(self):
        return _current.stdin_tty if _current is not None else False

    def fileno(self):
        return 0

    def read(self, *a):
        raise Blocked("stdin.read")

    readline = read

    @property
    def closed(self):
        return False

    def flush(self):
        pass

    def close(self):
        pass


class FakeStdout:
    encoding = "utf-8"
    errors = "strict"
    name = "<stdout>"
    closed = False

    def isatty(self):
        return _current.stdout_tty if _current is not None else False

    def fileno(self):
        return 1

    def write(self, s):
        if _current is not None:
            return _current.out.write(s)
        return len(s)

    def flush(self):
        if _current is not None:
            _current.out.flush()


class Stream:
    """A recording output stream; may fail at a chosen operation (fault injection)."""

    encoding = "utf-8"
    closed = False

    def __init__(self, env=None, tty=True):
        self.env = env
        self.tty = tty
        self.parts = []
        self.unflushed = False

    def write(self, s):
        if self.env is not None:
            self.env.fault("write")
            self.env.log.append(("write", s))
        self.parts.append(s)
        self.unflushed = True
        return 0

    def flush(self):
        if self.env is not None:
            self.env.fault("flush")
        self.unflushed = False

    gone = False

    def isatty(self):
        if self.gone:
            raise ValueError("I/O operation on closed file")
        return self.tty

    def fileno(self):
        return 1

    def take(self):
        out = ""
        for p in self.parts:
            out = out + p
        self.parts = []
        return out


class Fault(Exception):
    """An injected I/O failure."""


class Input:
    """An input stream other than stdin, at descriptor 7: `env` is the terminal behind it."""

    errors = "strict"
    name = "<other>"
    mode = "r"

    def __init__(self, env, main, encoding="utf-8"):
        self.env = env
        self.encoding = encoding
        main.others[7] = env

    def isatty(self):
        return self.env.stdin_tty

    def fileno(self):
        return 7

    def read(self, *a):
        raise Blocked("read of the stream itself")

    readline = read


class Env:
    def __init__(self, stdin_tty=True, stdout_tty=True, size=(80, 24), variables=None):
        self.stdin_tty = stdin_tty
        self.stdout_tty = stdout_tty
        self.size = size
        self.variables = dict(variables or {})
        self.out = Stream(self)
        self.log = []
        # input model: list of items consumed by os.read: int-like bytes
        self.input = []
        self.pos = 0
        self.ready = None        # list of booleans answered by select, in order
        self.nready = 0
        self.on_empty = None     # exception instance raised when input is exhausted
        self.read_faults = {}    # byte index -> exception
        # tty state
        self.attrs = [1, 2, 3, 4 | termios.ECHO | termios.ICANON, 5, 6, [b"\0"] * 32]
        self.echo = True
        # timers
        self.handler = None
        self.armed = False
        self.timer = None
        self.allowed = None      # the last time a timer was armed for
        # fault injection: fail at the n-th operation
        self.ops = 0
        self.fail_at = None
        self.opened = []
        self.others = {}         # descriptor -> Env

    def at(self, fd):
        """The terminal at a descriptor (or behind a stream)."""
        if hasattr(fd, "fileno"):
            fd = fd.fileno()
        return self.others.get(fd, self)

    # -- faults
    def fault(self, what):
        n = self.ops
        self.ops += 1
        if self.fail_at is not None:
            hit = self.fail_at == n
            if hit:
                raise Fault(f"injected failure of {what} (operation {n})")

    # -- input
    def read(self, fd, n):
        if self.pos >= len(self.input):
            main = _current if _current is not None else self
            if main.armed and main.handler is not None:
                main.armed = False
                main.handler(signal.SIGALRM, None)
            if self.on_empty is not None:
                raise self.on_empty
            raise Blocked("os.read on an exhausted input")
        if self.pos in self.read_faults:
            exc = self.read_faults.pop(self.pos)
            raise exc
        out = self.input[self.pos:self.pos + n]
        self.pos += len(out)
        self.log.append(("read", len(out)))
        return mkbytes(out)

    def is_ready(self):
        if self.ready is not None:
            if self.nready >= len(self.ready):
                return False
            r = self.ready[self.nready]
            self.nready += 1
            return r
        return self.pos < len(self.input)

    # -- the Windows console
    def kbhit(self):
        return 1 if self.is_ready() else 0

    def console(self):
        return self.read(0, 1)

    # -- tty
    def tcgetattr(self, fd):
        self.log.append(("tcgetattr",))
        a = list(self.attrs)
        a[6] = list(a[6])
        return a

    def tcsetattr(self, fd, when, attrs):
        self.log.append(("tcsetattr",))
        self.attrs = list(attrs)
        self.echo = bool(attrs[3] & termios.ECHO)

    def setcbreak(self, fd):
        self.log.append(("setcbreak",))
        a = self.tcgetattr(fd)
        a[3] = a[3] & ~(termios.ECHO | termios.ICANON)
        self.attrs = a
        self.echo = False

    def shell(self, cmd):
        words = cmd.split() if isinstance(cmd, str) else [w for w in cmd]
        self.log.append(("shell", tuple(words)))
        if words and words[0] == "stty":
            for w in words[1:]:
                if w == "echo":
                    self._set_echo(True)
                elif w == "-echo":
                    self._set_echo(False)
        return 0

    def _set_echo(self, v):
        self.echo = v
        self.attrs[3] = (self.attrs[3] | termios.ECHO) if v else (self.attrs[3] & ~termios.ECHO)


def mkbytes(items):
    if all(type(x) is int for x in items):
        return bytes(items)
    from .rt import SymBytes
    return SymBytes(items)


@contextlib.contextmanager
def active(e):
    global _current
    old = _current
    _current = e
    try:
        yield e
    finally:
        _current = old


def is_nt(prop):
    """Whether this harness runs the code as on Windows."""
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "props", prop + ".py"), encoding="utf-8") as f:
        return "\nNT = True\n" in f.read()


@contextlib.contextmanager
def platform(nt):
    """The code under test sees Windows: `os.name` and a console module."""
    if not nt:
        yield
        return
    import types
    m = types.ModuleType("msvcrt")
    m.kbhit = lambda: _current.kbhit()
    m.getch = lambda: _current.console()
    m.getwch = lambda: _current.console().decode("latin-1")
    old = os.name
    sys.modules["msvcrt"] = m
    os.name = "nt"
    try:
        yield
    finally:
        os.name = old
        sys.modules.pop("msvcrt", None)


def reset():
    global _current
    _current = None


class _Environ(dict):
    """os.environ stand-in."""


class EnvironProxy:
    def __init__(self, real):
        self._real = real

    def _d(self):
        return _current.variables if _current is not None else self._real

    def get(self, k, default=None):
        d = self._d()
        return d[k] if k in d else default

    def __getitem__(self, k):
        return self._d()[k]

    def __contains__(self, k):
        return k in self._d()

    def __iter__(self):
        return iter(self._d())

    def __len__(self):
        return len(self._d())

    def __setitem__(self, k, v):
        self._d()[k] = v

    def __delitem__(self, k):
        del self._d()[k]

    def keys(self):
        return self._d().keys()

    def items(self):
        return self._d().items()

    def values(self):
        return self._d().values()

    def setdefault(self, k, v=None):
        return self._d().setdefault(k, v)

    def pop(self, *a):
        return self._d().pop(*a)

    def copy(self):
        return dict(self._d())


class SyncThread:
    """A thread that runs when joined (or at interpreter end): one schedule, the blocking
    read happens after the query was written."""

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self.target, self.args, self.kwargs = target, args, kwargs or {}
        self.done = False
        self.started = False
        self.exc = None
        self.daemon = daemon

    def start(self):
        self.started = True
        if _current is not None:
            _current.log.append(("thread-start",))

    def run(self):
        if self.target is not None:
            self.target(*self.args, **self.kwargs)

    def join(self, timeout=None):
        if self.started and not self.done:
            self.done = True
            try:
                self.run()
            except Exception as e:
                self.exc = e

    def is_alive(self):
        return self.started and not self.done


def install():
    global _installed
    if _installed:
        return
    _installed = True

    def wrap(mod, name, method):
        orig = getattr(mod, name)

        def f(*a, **k):
            if _current is not None:
                return method(_current, *a, **k)
            return orig(*a, **k)

        f.__name__ = name
        f.__wrapped__ = orig
        setattr(mod, name, f)

    wrap(os, "read", lambda e, fd, n: e.at(fd).read(fd, n))
    wrap(os, "system", lambda e, cmd: e.shell(cmd))
    wrap(os, "popen", lambda e, cmd, *a: e.shell(cmd))

    class _Done:
        returncode = 0
        stdout = stderr = b""

        def check_returncode(self):
            pass

    def _run(e, args, *a, **k):
        e.shell(args)
        return _Done()

    wrap(subprocess, "run", _run)
    wrap(subprocess, "call", lambda e, args, *a, **k: e.shell(args))
    wrap(subprocess, "check_call", lambda e, args, *a, **k: e.shell(args))

    def _sel(e, r, w, x, timeout=None):
        return ([y for y in r if e.at(y).is_ready()], [], [])

    wrap(_select, "select", _sel)
    wrap(termios, "tcgetattr", lambda e, fd: e.at(fd).tcgetattr(fd))
    wrap(termios, "tcsetattr", lambda e, fd, when, attrs: e.at(fd).tcsetattr(fd, when, attrs))
    wrap(termios, "tcflush", lambda e, fd, q: None)
    wrap(tty, "setcbreak", lambda e, fd, when=0: e.at(fd).setcbreak(fd))
    wrap(tty, "setraw", lambda e, fd, when=0: e.at(fd).setcbreak(fd))

    def _signal(e, sig, handler):
        if sig == signal.SIGALRM:
            old = e.handler
            e.handler = handler if callable(handler) else None
            e.log.append(("signal",))
            return old if old is not None else signal.SIG_DFL
        return signal.SIG_DFL

    wrap(signal, "signal", _signal)
    wrap(signal, "getsignal", lambda e, sig: e.handler if e.handler is not None else signal.SIG_DFL)

    def _itimer(e, which, seconds, interval=0.0):
        e.timer = seconds
        e.armed = bool(seconds > 0)
        if e.armed:
            e.allowed = seconds
        e.log.append(("setitimer",))
        return (0.0, 0.0)

    wrap(signal, "setitimer", _itimer)

    def _alarm(e, seconds):
        e.timer = seconds
        e.armed = bool(seconds > 0)
        if e.armed:
            e.allowed = seconds
        return 0

    wrap(signal, "alarm", _alarm)

    orig_size = shutil.get_terminal_size

    def _size(*a, **k):
        if _current is not None:
            return os.terminal_size(_current.size)
        return os.terminal_size((80, 24))

    _size.__wrapped__ = orig_size
    shutil.get_terminal_size = _size
    os.get_terminal_size = _size

    real_thread = threading.Thread

    class ThreadProxy(real_thread):
        def __new__(cls, *a, **k):
            if _current is not None and cls is ThreadProxy:
                return SyncThread(*a, **k)
            return super().__new__(cls)

    threading.Thread = ThreadProxy

    os.environ = EnvironProxy(dict(os.environ))
    os.environ._real.pop("SLATE_COLORSYS", None)
    os.environ._real.pop("NO_COLOR", None)
    os.environ._real["TERM"] = "xterm-256color"
    os.environ._real["COLORTERM"] = "truecolor"

    real_open = builtins.open

    class _Sink:
        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def write(self, s):
            return 0

        def writelines(self, it):
            pass

        def close(self):
            pass

        def flush(self):
            pass

    def _open(file, mode="r", *a, **k):
        if _current is not None and any(c in mode for c in "wax+"):
            _current.opened.append(file)
            _current.log.append(("open", file, mode))
            return _Sink()
        return real_open(file, mode, *a, **k)

    builtins.open = _open
    import io
    io.open = _open
    global STDIN, STDOUT
    STDIN, STDOUT = FakeStdin(), FakeStdout()
    restore_std()


STDIN = STDOUT = None


def restore_std():
    sys.stdin, sys.stdout = STDIN, STDOUT
