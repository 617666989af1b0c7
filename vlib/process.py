"""Pictures of the process: what a call of a library may not change behind the back of the user.

``picture()`` names every setting separately, so that a difference names what was changed.
``Audit`` records what the interpreter reports about files, processes, sockets and environment
while a call is running (``sys.addaudithook``).
"""

import copy
import decimal
import gc
import io
import locale
import logging
import os
import random
import resource
import signal
import sys
import threading
import warnings

import numpy as np


def _plotly():
    import plotly.io as pio

    return pio


def warm():
    """Other packages change settings when they are imported, which is not what is looked for."""
    import plotly.graph_objects as go
    import plotly.subplots
    import plotly.tools  # noqa: F401
    import scipy.spatial  # noqa: F401
    import spglib  # noqa: F401

    fig = plotly.subplots.make_subplots(rows=1, cols=1, specs=[[{"type": "scene"}]])
    fig.add_trace(go.Scatter3d(x=[0], y=[0], z=[0]))
    fig.to_html(include_plotlyjs=False)
    picture()


def descriptors():
    out = {}
    for n in os.listdir("/proc/self/fd"):
        try:
            out[n] = os.readlink(f"/proc/self/fd/{n}")
        except OSError:
            pass  # the descriptor of the listing itself
    return {n: t for n, t in out.items() if not t.startswith("/proc/")}


def umask():
    with open("/proc/self/status") as f:
        for line in f:
            if line.startswith("Umask:"):
                return line.split()[1]
    return None


SIGNALS = [s for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGHUP,
                       signal.SIGUSR1, signal.SIGUSR2, signal.SIGCHLD, signal.SIGPIPE,
                       signal.SIGFPE, signal.SIGABRT)]  # fmt: skip


def picture():
    pio = _plotly()
    ctx = decimal.getcontext()
    s = np.random.get_state()
    return {
        "floating point errors of numpy": (np.geterr(), np.geterrcall(), np.getbufsize()),
        "print options of numpy": {
            k: (v if not callable(v) else id(v)) for k, v in np.get_printoptions().items()
        },
        "random numbers": random.getstate(),
        "random numbers of numpy": (s[0], s[1].tobytes(), *s[2:]),
        "warning filters": [tuple(map(_word, f)) for f in warnings.filters],
        "display of warnings": id(warnings.showwarning),
        "current directory": os.getcwd(),
        "environment": dict(os.environ),
        "umask": umask(),
        "locale": locale.setlocale(locale.LC_ALL, None),
        "decimal context": (ctx.prec, ctx.rounding, ctx.Emin, ctx.Emax, str(ctx.traps)),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "hooks of the interpreter": [
            id(x)
            for x in (sys.excepthook, sys.displayhook, sys.unraisablehook, threading.excepthook,
                      sys.stdin, sys.stdout, sys.stderr, sys.getprofile(), sys.meta_path,
                      sys.breakpointhook)
        ],
        "path of modules": (list(sys.path), list(sys.argv), sys.dont_write_bytecode),
        "garbage collector": (gc.isenabled(), gc.get_threshold(), gc.get_freeze_count(),
                              gc.get_debug()),
        "signals": [str(signal.getsignal(x)) for x in SIGNALS],
        "logging": (logging.root.level, len(logging.root.handlers), logging.raiseExceptions,
                    logging.root.manager.disable),
        "limits": [resource.getrlimit(x) for x in (resource.RLIMIT_AS, resource.RLIMIT_NOFILE,
                                                   resource.RLIMIT_STACK, resource.RLIMIT_FSIZE)],
        "threads": sorted(t.ident for t in threading.enumerate()),
        "templates of plotly": (pio.templates.default, pio.renderers.default),
        "integer digits": sys.get_int_max_str_digits()
        if hasattr(sys, "get_int_max_str_digits")
        else None,
    }  # fmt: skip


def _word(x):
    return x.pattern if hasattr(x, "pattern") else str(x)


MODULES = ("builtins", "math", "os", "copy", "json", "warnings", "numpy", "numpy.linalg",
           "spglib", "scipy.spatial", "plotly.graph_objects", "wulfric", "wulfric.cell",
           "wulfric.crystal", "wulfric.geometry", "wulfric.kpoints", "wulfric.io",
           "wulfric.constants")  # fmt: skip


def modules():
    """{(module, name): identity of the function or class} of modules that everybody shares."""
    out = {}
    for m in MODULES:
        mod = sys.modules.get(m)
        if mod is None:
            continue
        for k, v in list(vars(mod).items()):
            if callable(v) and not k.startswith("__"):
                out[m, k] = v
    return out


WRITES = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
SINKS = ("os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.link", "os.symlink", "os.truncate",
         "os.chmod", "os.chown", "os.utime", "shutil.rmtree", "shutil.move", "shutil.copyfile")
NEVER = ("os.system", "os.exec", "os.fork", "os.forkpty", "os.posix_spawn", "os.spawn",
         "subprocess.Popen", "socket.connect", "socket.bind", "socket.sendto", "os.putenv",
         "os.unsetenv", "os.chdir", "os.fchdir", "os.kill", "os.killpg", "webbrowser.open",
         "urllib.Request", "ctypes.dlopen", "signal.pthread_kill", "resource.setrlimit",
         "sys.setprofile", "builtins.input", "pty.spawn", "os.setxattr")  # fmt: skip


class Audit:
    """What the calls of one thread do to the world; the hook is installed once per process."""

    current = None
    installed = False
    seen = 0

    def __init__(self):
        self.events = []
        self.thread = threading.get_ident()
        if not Audit.installed:
            Audit.installed = True
            sys.addaudithook(Audit._hook)

    @staticmethod
    def _hook(event, args):
        me = Audit.current
        if me is None or threading.get_ident() != me.thread:
            return
        Audit.seen += 1
        if event == "open":
            path, mode, flags = (*args, None, None, None)[:3]
            writes = bool(isinstance(flags, int) and flags & WRITES) or bool(
                isinstance(mode, str) and set(mode) & set("wax+")
            )
            me.events.append(("write" if writes else "read", str(_path(path))))
        elif event in SINKS:
            me.events.append((event, str(_path(args[0])) if args else ""))
        elif event in NEVER:
            me.events.append((event, str(args)[:120]))

    def __enter__(self):
        self.events = []
        Audit.current = self
        return self

    def __exit__(self, *exc):
        Audit.current = None


def _path(x):
    if isinstance(x, bytes):
        return os.fsdecode(x)
    if isinstance(x, int):
        return f"<{x}>"
    try:
        return os.path.abspath(os.fspath(x))
    except TypeError:
        return repr(x)


class Fault(KeyboardInterrupt):
    """The user lost patience."""


class Interrupt:
    """Raises ``Fault`` when the n-th line of the library is about to run."""

    def __init__(self, root, n):
        self.root, self.left, self.where = root, n, None

    def __call__(self, frame, event, arg):
        if self.where or not frame.f_code.co_filename.startswith(self.root):
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == "line" and not self.where:
            self.left -= 1
            if self.left < 0:
                name = os.path.relpath(frame.f_code.co_filename, self.root)
                self.where = f"{name}:{frame.f_code.co_name}"
                raise Fault(self.where)
        return self.line


class Streams:
    """Standard streams that remember what was written to them."""

    def __enter__(self):
        self.old = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = self.out, self.err = io.StringIO(), io.StringIO()
        return self

    def __exit__(self, *exc):
        # not restored when somebody replaced them: that is what is looked for
        self.replaced = sys.stdout is not self.out or sys.stderr is not self.err
        sys.stdout, sys.stderr = self.old


def unusual(rng):
    """Settings of a user who changed the defaults (nothing that changes a result)."""
    np.seterr(
        divide=str(rng.choice(["ignore", "warn", "print"])) if rng.random() < 0.2 else "ignore",
        over=str(rng.choice(["ignore", "warn"])),
        under=str(rng.choice(["ignore", "warn"])),
        invalid=str(rng.choice(["ignore", "warn"])),
    )
    np.set_printoptions(
        precision=int(rng.integers(2, 12)),
        suppress=bool(rng.random() < 0.5),
        linewidth=int(rng.integers(40, 200)),
        threshold=int(rng.integers(10, 5000)),
    )
    random.seed(int(rng.integers(1 << 30)))
    np.random.seed(int(rng.integers(1 << 30)))
    if rng.random() < 0.5:
        random.random()
        np.random.normal(size=int(rng.integers(1, 5)))
        random.gauss(0, 1)
    warnings.simplefilter(str(rng.choice(["ignore", "ignore", "default"])), UserWarning)
    warnings.filterwarnings("ignore", message=f"nothing {int(rng.integers(100))}")
    decimal.getcontext().prec = int(rng.integers(5, 40))
    sys.setrecursionlimit(int(rng.integers(1500, 6000)))
    gc.set_threshold(int(rng.integers(500, 1500)), int(rng.integers(5, 15)), 10)
    os.environ["WULFRIC_NOTHING"] = str(rng.integers(1000))
    os.umask([0o022, 0o077, 0o002][int(rng.integers(3))])
    logging.root.setLevel(int(rng.choice([10, 20, 30])))
    pio = _plotly()
    pio.templates.default = str(rng.choice(["plotly", "plotly_white", "seaborn"]))


class Restored:
    """Everything ``unusual`` changes is put back after the case."""

    def __enter__(self):
        ctx = decimal.getcontext()
        self.was = dict(
            err=np.geterr(), print=np.get_printoptions(), r=random.getstate(),
            n=np.random.get_state(), filters=list(warnings.filters), show=warnings.showwarning,
            cwd=os.getcwd(), env=dict(os.environ), prec=ctx.prec, rec=sys.getrecursionlimit(),
            gc=gc.get_threshold(), on=gc.isenabled(), log=logging.root.level,
            template=_plotly().templates.default, path=list(sys.path), hook=sys.excepthook,
            mask=int(umask() or "022", 8), handlers=list(logging.root.handlers),
        )  # fmt: skip
        return self

    def __exit__(self, *exc):
        w = self.was
        np.seterr(**w["err"])
        np.set_printoptions(**copy.copy(w["print"]))
        random.setstate(w["r"])
        np.random.set_state(w["n"])
        warnings.filters[:] = w["filters"]
        if hasattr(warnings, "_filters_mutated"):
            warnings._filters_mutated()
        warnings.showwarning = w["show"]
        os.chdir(w["cwd"])
        os.environ.clear()
        os.environ.update(w["env"])
        decimal.getcontext().prec = w["prec"]
        sys.setrecursionlimit(w["rec"])
        gc.set_threshold(*w["gc"])
        (gc.enable if w["on"] else gc.disable)()
        logging.root.setLevel(w["log"])
        logging.root.handlers[:] = w["handlers"]
        _plotly().templates.default = w["template"]
        sys.path[:] = w["path"]
        sys.excepthook = w["hook"]
        os.umask(w["mask"])
