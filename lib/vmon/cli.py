"""Running the command line tool under the interposer."""

import os
import pty
import resource
import select
import signal
import subprocess
import time

from . import core

BASE_ENV = {
    "PATH": "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "LANG": "C.UTF-8",
    "HOME": "/nonexistent",
}


class Run:
    """Outcome of a command."""

    def __init__(self):
        self.rc = None
        self.out = self.err = b""
        self.hang = None
        self.survivors = []
        self.events = []

    def text(self):
        return self.err.decode(errors="replace")

    def brief(self):
        t = self.text()
        return "rc=%s hang=%s stderr=...%s" % (self.rc, self.hang, t[-400:].replace("\n", " / "))


_n = [0]


def libpath():
    return os.environ.get("LD_PRELOAD", "")


def settle(res, quiet=6.0, wall=60):
    """Wait for helpers to go away; what is stuck or keeps running remains."""
    t0 = time.monotonic()
    last, since = None, t0
    while True:
        while True:
            try:
                p, _ = os.waitpid(-1, os.WNOHANG)
            except ChildProcessError:
                p = 0
            if p == 0:
                break
        kids = []
        for p in proc_others():
            kids += core.proc_tree(p)
        if not kids:
            return []
        a = core.activity(kids)
        now = time.monotonic()
        if a is None or a != last:
            last, since = a, now
        if now - since > quiet or now - t0 > wall:
            out = []
            for p in kids:
                try:
                    with open("/proc/%d/cmdline" % p) as f:
                        out.append("%d:%s" % (p, f.read().replace("\0", " ").strip()))
                except OSError:
                    pass
            for p in kids:
                try:
                    os.kill(p, signal.SIGKILL)
                except OSError:
                    pass
            return out
        time.sleep(0.01)


_keep = set()


def keep(pid):
    """Children of the harness itself (servers), not of the command."""
    _keep.add(pid)


def proc_others():
    return [p for p in core.proc_children(os.getpid()) if p not in _keep]


def run(args, env=None, cwd=None, conf=None, dir=None, stdin=None, tty=False,
        quiet=8.0, cpu=90.0, wall=300, on_tick=None, prog=None, survivors=True,
        preload=True, limit_as=None, fsize=None, user=None, extra_fds=(), stdout=None):
    """
    Run 'python -m bmaptools ARGS' (or prog).  conf: list of interposer
    directives; dir: where to put configuration and log.
    """
    r = Run()
    e = dict(BASE_ENV)
    e["PYTHONPATH"] = core.REPO
    e.update(env or {})
    log = None
    if preload:
        _n[0] += 1
        cpath = os.path.join(dir, "cli.conf.%d" % _n[0])
        log = os.path.join(dir, "cli.log.%d" % _n[0])
        core.write_conf(cpath, conf or [], log)
        e["LD_PRELOAD"] = libpath()
        e["VMON_CONF"] = cpath
    cmd = (prog or [core.PYTHON, "-P", "-m", "bmaptools"]) + list(args)

    def pre():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        signal.signal(signal.SIGINT, signal.default_int_handler)
        signal.signal(signal.SIGPIPE, signal.SIG_DFL)
        if fsize is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        if limit_as:
            resource.setrlimit(resource.RLIMIT_AS, (limit_as, limit_as))
        if user:
            os.setgid(user)
            os.setuid(user)

    if tty:
        m, s = pty.openpty()
        po = pe = s
    else:
        m = s = None
        po = stdout if stdout is not None else subprocess.PIPE
        pe = subprocess.PIPE
    core.set_subreaper()
    p = subprocess.Popen(cmd, env=e, cwd=cwd or dir, stdin=stdin if stdin is not None else subprocess.DEVNULL,
                         stdout=po, stderr=pe, preexec_fn=pre, pass_fds=extra_fds, start_new_session=True)
    fds = {}
    if tty:
        os.close(s)
        fds[m] = bytearray()
    else:
        if p.stdout:
            fds[p.stdout.fileno()] = bytearray()
        fds[p.stderr.fileno()] = bytearray()
    order = list(fds)
    live = set(fds)
    watch = core.HangWatch(p.pid, quiet, cpu, wall)
    ended = None
    while True:
        ready = []
        if live:
            ready, _, _ = select.select(list(live), [], [], 0.02)
        else:
            time.sleep(0.005)
        for fd in ready:
            try:
                b = os.read(fd, 65536)
            except OSError:
                b = b""
            if not b:
                live.discard(fd)
            else:
                fds[fd] += b
        if on_tick:
            on_tick(p)
        if p.poll() is not None:
            if not live:
                break
            # helpers may still hold the pipes
            if ended is None:
                ended = time.monotonic()
            if not ready and time.monotonic() - ended > 0.3:
                break
            continue
        h = watch.check()
        if h:
            r.hang = h
            core.kill_tree(p.pid)
            p.wait()
            break
    r.rc = p.returncode
    if survivors:
        r.survivors = settle(r)
    if tty:
        r.err = bytes(fds[m])
        try:
            while True:
                b = os.read(m, 65536)
                if not b:
                    break
                r.err += b
        except OSError:
            pass
        os.close(m)
    else:
        # drain what is left
        for f in (p.stdout, p.stderr):
            if f is None:
                continue
            fd = f.fileno()
            if fd in live:
                os.set_blocking(fd, False)
                try:
                    while True:
                        b = os.read(fd, 65536)
                        if not b:
                            break
                        fds[fd] += b
                except OSError:
                    pass
            f.close()
        if p.stdout is not None:
            r.out = bytes(fds[order[0]])
        r.err = bytes(fds[order[-1]])
    if log:
        r.events = core.parse_log(log)
    return r
