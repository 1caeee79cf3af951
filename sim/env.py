"""
Simulated clock, child processes and accounts.

The stand-ins are put in place before the package is imported (so that names imported from these
modules are covered too) and behave like the originals until a run arms them.
"""

import datetime
import io
import os
import pwd
import subprocess
import time

from sim.kernel import K, make_oserror

REAL_DATETIME = datetime.datetime
REAL_DATE = datetime.date
REAL_TIME = {
    n: getattr(time, n)
    for n in ("time", "time_ns", "localtime", "gmtime", "ctime", "asctime", "strftime")
}
REAL_POPEN = subprocess.Popen
REAL_PWD = {n: getattr(pwd, n) for n in ("getpwnam", "getpwuid", "getpwall")}

FOREIGN_DAYS = ("lun", "mar", "mer", "jeu", "ven", "sam", "dim")
FOREIGN_MONTHS = (
    "janv", "févr", "mars", "avr", "mai", "juin", "juil", "août", "sept", "oct", "nov", "déc",
)


class Clock:
    """A plan of readings; the last one goes on slowly."""

    def __init__(self):
        self.armed = False
        self.foreign = False
        self.plan = []
        self.taken = []

    def arm(self, plan):
        self.plan = list(plan)
        self.taken = []
        self.armed = True

    def active(self):
        return self.armed and K.armed and not K.inside

    def read(self):
        if len(self.plan) > 1:
            t = self.plan.pop(0)
        else:
            t = self.plan[0]
            self.plan[0] = t + 0.001
        self.taken.append(t)
        K.calls["clock"] = K.calls.get("clock", 0) + 1
        K.log.append(f"clock:{t}")
        return t


CLOCK = Clock()


def _localise(fmt, wday, month):
    """Weekday and month names of the simulated locale."""
    if not CLOCK.foreign:
        return fmt
    out = ""
    i = 0
    while i < len(fmt):
        two = fmt[i : i + 2]
        if two in ("%a", "%A"):
            out += FOREIGN_DAYS[wday]
        elif two in ("%b", "%B", "%h"):
            out += FOREIGN_MONTHS[month - 1]
        elif two.startswith("%"):
            out += two
        else:
            out += fmt[i]
            i += 1
            continue
        i += 2
    return out


class _Meta(type):
    real = None

    def __instancecheck__(cls, obj):
        return isinstance(obj, cls.real)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, cls.real)


class _DateMeta(_Meta):
    real = REAL_DATE


class _DatetimeMeta(_Meta):
    real = REAL_DATETIME


class SimDate(REAL_DATE, metaclass=_DateMeta):
    @classmethod
    def today(cls):
        if CLOCK.active():
            return cls.fromtimestamp(CLOCK.read())
        return super().today()

    def strftime(self, fmt):
        return REAL_DATE.strftime(self, _localise(fmt, self.weekday(), self.month))

    def __format__(self, fmt):
        return self.strftime(fmt) if fmt else str(self)


class SimDatetime(REAL_DATETIME, metaclass=_DatetimeMeta):
    @classmethod
    def now(cls, tz=None):
        if CLOCK.active():
            return cls.fromtimestamp(CLOCK.read(), tz)
        return super().now(tz)

    @classmethod
    def utcnow(cls):
        if CLOCK.active():
            t = CLOCK.read()
            return cls.fromtimestamp(t, datetime.timezone.utc).replace(tzinfo=None)
        return super().utcnow()

    @classmethod
    def today(cls):
        return cls.now()

    def date(self):
        return SimDate(self.year, self.month, self.day)

    def strftime(self, fmt):
        return REAL_DATETIME.strftime(self, _localise(fmt, self.weekday(), self.month))

    def __format__(self, fmt):
        return self.strftime(fmt) if fmt else str(self)


def _install_clock():
    datetime.date = SimDate
    datetime.datetime = SimDatetime

    def sim_time():
        return CLOCK.read() if CLOCK.active() else REAL_TIME["time"]()

    def sim_time_ns():
        return int(CLOCK.read() * 10**9) if CLOCK.active() else REAL_TIME["time_ns"]()

    def broken_down(name):
        real = REAL_TIME[name]

        def w(secs=None):
            if secs is None and CLOCK.active():
                secs = CLOCK.read()
            return real(secs)

        w.__name__ = name
        return w

    def sim_ctime(secs=None):
        if secs is None and CLOCK.active():
            secs = CLOCK.read()
        return REAL_TIME["ctime"](secs)

    def sim_asctime(*a):
        if not a and CLOCK.active():
            a = (REAL_TIME["localtime"](CLOCK.read()),)
        return REAL_TIME["asctime"](*a)

    def sim_strftime(fmt, *a):
        if CLOCK.active():
            if not a:
                a = (REAL_TIME["localtime"](CLOCK.read()),)
            fmt = _localise(fmt, a[0][6], a[0][1])
        return REAL_TIME["strftime"](fmt, *a)

    time.time = sim_time
    time.time_ns = sim_time_ns
    time.localtime = broken_down("localtime")
    time.gmtime = broken_down("gmtime")
    time.ctime = sim_ctime
    time.asctime = sim_asctime
    time.strftime = sim_strftime


# -- child processes ---------------------------------------------------------------------------


class Programs:
    """
    What other programs answer. `handler(argv, cwd, env)` returns (returncode, stdout, stderr) in
    bytes, or None if there is no such program.
    """

    def __init__(self):
        self.handler = None
        self.ran = []

    def active(self):
        return self.handler is not None and K.armed and not K.inside


PROGRAMS = Programs()


class SimPopen:
    """A child process: it exists only in the model, and ends when it is waited for."""

    def __init__(
        self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None,
        preexec_fn=None, close_fds=True, shell=False, cwd=None, env=None,
        universal_newlines=None, startupinfo=None, creationflags=0, restore_signals=True,
        start_new_session=False, pass_fds=(), *, user=None, group=None, extra_groups=None,
        encoding=None, errors=None, text=None, umask=-1, pipesize=-1, process_group=None,
    ):
        if isinstance(args, (str, bytes, os.PathLike)):
            argv = os.fsdecode(args).split() if shell else [os.fsdecode(args)]
        else:
            argv = [os.fsdecode(a) for a in args]
            if shell and len(argv) == 1:
                argv = argv[0].split()
        self.args = args
        self.pid = 4242
        self.returncode = None
        self.text = bool(universal_newlines or encoding or errors or text)
        self.encoding = encoding or "utf8"
        self.errors = errors or "strict"

        def spawn():
            PROGRAMS.ran.append(argv)
            return PROGRAMS.handler(argv, cwd, os.environ if env is None else env)

        answer = K.gate("proc", " ".join(argv), 0, spawn, (), {})
        if answer is None:
            if shell:
                answer = (127, b"", b"sh: not found\n")
            else:
                raise make_oserror("ENOENT", argv[0])
        if isinstance(answer, OSError):
            raise answer
        self._rc, out, err = answer
        if stderr == subprocess.STDOUT:
            out, err = out + err, b""
        self._out = self._stream(out) if stdout == subprocess.PIPE else None
        self._err = self._stream(err) if stderr == subprocess.PIPE else None
        self.stdout = self._out
        self.stderr = self._err
        self.stdin = io.BytesIO() if stdin == subprocess.PIPE else None

    def _stream(self, data):
        if self.text:
            return io.TextIOWrapper(io.BytesIO(data), encoding=self.encoding, errors=self.errors)
        return io.BytesIO(data)

    def communicate(self, input=None, timeout=None):
        # undecodable output shows when it is read, as it does for real
        out = self._out.read() if self._out is not None else None
        err = self._err.read() if self._err is not None else None
        self.wait()
        return out, err

    def wait(self, timeout=None):
        self.returncode = self._rc
        return self._rc

    def poll(self):
        return self.wait()

    def kill(self):
        pass

    terminate = kill

    def send_signal(self, sig):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()


class _PopenMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, (REAL_POPEN, SimPopen))


class PopenSwitch(metaclass=_PopenMeta):
    def __new__(cls, *a, **k):
        if PROGRAMS.active():
            return SimPopen(*a, **k)
        return REAL_POPEN(*a, **k)

    def __class_getitem__(cls, item):
        return cls


# -- accounts ----------------------------------------------------------------------------------


class Accounts:
    """The account database: name -> (uid, full name), or an error for every lookup."""

    def __init__(self):
        self.armed = False
        self.users = {}
        self.error = None

    def active(self):
        return self.armed and K.armed and not K.inside

    def entry(self, name):
        uid, gecos = self.users[name]
        return pwd.struct_passwd((name, "x", uid, uid, gecos, "/nonexistent", "/bin/sh"))


ACCOUNTS = Accounts()


def _install_accounts():
    def look(what, find):
        def do():
            if ACCOUNTS.error:
                raise make_oserror(ACCOUNTS.error)
            return find()

        return K.gate("proc", what, 0, do, (), {})

    def getpwnam(name):
        if not ACCOUNTS.active():
            return REAL_PWD["getpwnam"](name)

        def find():
            if name not in ACCOUNTS.users:
                raise KeyError(f"getpwnam(): name not found: {name!r}")
            return ACCOUNTS.entry(name)

        return look(f"getpwnam {name}", find)

    def getpwuid(uid):
        if not ACCOUNTS.active():
            return REAL_PWD["getpwuid"](uid)

        def find():
            for name, (u, _) in ACCOUNTS.users.items():
                if u == uid:
                    return ACCOUNTS.entry(name)
            raise KeyError(f"getpwuid(): uid not found: {uid}")

        return look(f"getpwuid {uid}", find)

    def getpwall():
        if not ACCOUNTS.active():
            return REAL_PWD["getpwall"]()
        return look("getpwall", lambda: [ACCOUNTS.entry(n) for n in ACCOUNTS.users])

    pwd.getpwnam = getpwnam
    pwd.getpwuid = getpwuid
    pwd.getpwall = getpwall


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    _install_clock()
    subprocess.Popen = PopenSwitch
    _install_accounts()
