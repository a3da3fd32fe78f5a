"""
Common machinery of the checks: scratch space, the interposer, process
isolation of cases, hang detection, evidence and verdicts.

A check is a module in /verif/checks with

    PROP, LEVEL, RULE
    cases(ctx)        -> list/iterator of JSON-able dicts (deterministic)
    run(case, env)    -> Result

and optionally BATCH (cases per process), REQUIRE ({counter: minimum}),
ASSUMPTIONS, setup(ctx), teardown(ctx).
"""

import ctypes
import hashlib
import json
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import comp

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
REPO = os.environ.get("VMON_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"
NCPU = min(8, os.cpu_count() or 1)


# ---------------------------------------------------------------- interposer
def build_lib():
    """Build the interposer (into the check's own scratch space)."""
    src = os.path.join(HERE, "interpose.c")
    with open(src, "rb") as f:
        tag = hashlib.sha256(f.read()).hexdigest()[:16]
    outdir = os.path.join(VERIF, "build")
    lib = os.path.join(outdir, "libvmon-%s.so" % tag)
    if os.path.exists(lib):
        return lib
    try:
        os.makedirs(outdir, exist_ok=True)
    except OSError:
        outdir = tempfile.mkdtemp(prefix="vmonlib.")
        lib = os.path.join(outdir, "libvmon-%s.so" % tag)
    tmp = lib + ".%d" % os.getpid()
    subprocess.run(
        ["gcc", "-O2", "-w", "-shared", "-fPIC", "-o", tmp, src, "-ldl", "-lpthread"],
        check=True,
    )
    os.rename(tmp, lib)
    return lib


_dll = None


def dll():
    global _dll
    if _dll is None:
        _dll = ctypes.CDLL(None)
        _dll.vmon_configure.argtypes = [ctypes.c_char_p]
        _dll.vmon_configure.restype = ctypes.c_long
        _dll.vmon_mark.argtypes = [ctypes.c_char_p]
    return _dll


class Ev:
    __slots__ = ("seq", "ts", "tid", "op", "role", "fd", "off", "len", "ret", "err", "extra")

    def __init__(self, w):
        self.seq, self.ts, self.tid = int(w[0]), int(w[1]), int(w[2])
        self.op, self.role, self.fd = w[3], w[4], int(w[5])
        self.off, self.len, self.ret, self.err = int(w[6]), int(w[7]), int(w[8]), int(w[9])
        self.extra = w[10] if len(w) > 10 else ""

    def __repr__(self):
        return "#%d %s/%s fd=%d off=%d len=%d ret=%d err=%d %s" % (
            self.seq, self.op, self.role, self.fd, self.off, self.len, self.ret, self.err, self.extra)


def parse_log(path):
    out = []
    try:
        with open(path, "r", errors="replace") as f:
            for line in f:
                w = line.rstrip("\n").split("\t")
                if len(w) >= 10:
                    try:
                        out.append(Ev(w))
                    except ValueError:
                        pass
    except FileNotFoundError:
        pass
    out.sort(key=lambda e: e.seq)
    return out


def write_conf(path, lines, log):
    with open(path, "w") as f:
        f.write("log\t%s\n" % log)
        for l in lines:
            f.write("\t".join(str(x) for x in l) + "\n")


class Monitor:
    """Context manager: monitor the calls this very process makes."""

    n = 0

    def __init__(self, env, lines):
        Monitor.n += 1
        self.conf = os.path.join(env.dir, "conf.%d" % Monitor.n)
        self.log = os.path.join(env.dir, "log.%d" % Monitor.n)
        self.lines = lines
        self.events = []

    def __enter__(self):
        write_conf(self.conf, self.lines, self.log)
        dll().vmon_configure(self.conf.encode())
        return self

    def mark(self, s):
        dll().vmon_mark(s.encode())

    def __exit__(self, *a):
        dll().vmon_configure(b"")
        self.events = parse_log(self.log)
        return False


# ---------------------------------------------------------------- processes
def proc_children(pid):
    out = []
    try:
        for t in os.listdir("/proc/%d/task" % pid):
            try:
                with open("/proc/%d/task/%s/children" % (pid, t)) as f:
                    out += [int(x) for x in f.read().split()]
            except OSError:
                pass
    except OSError:
        pass
    return out


def proc_tree(pid):
    """pid and all its descendants."""
    todo, out = [pid], []
    while todo:
        p = todo.pop()
        if p in out:
            continue
        out.append(p)
        todo += proc_children(p)
    return out


def activity(pids):
    """A signature of the activity of processes, None if any of them runs."""
    sig = []
    for p in pids:
        try:
            for t in sorted(os.listdir("/proc/%d/task" % p)):
                with open("/proc/%d/task/%s/stat" % (p, t)) as f:
                    w = f.read().rpartition(")")[2].split()
                if w[0] == "Z":
                    continue
                if w[0] not in ("S", "T", "t"):
                    return None
                sw = []
                with open("/proc/%d/task/%s/status" % (p, t)) as f:
                    for line in f:
                        if "ctxt_switches" in line:
                            sw.append(line.split()[1])
                sig.append((p, t, w[0], w[11], w[12], tuple(sw)))
        except (OSError, IndexError):
            pass
    return tuple(sig)


def cpu_seconds(pids):
    tot = 0
    for p in pids:
        try:
            with open("/proc/%d/stat" % p) as f:
                w = f.read().rpartition(")")[2].split()
            tot += int(w[11]) + int(w[12])
        except (OSError, IndexError):
            pass
    return tot / os.sysconf("SC_CLK_TCK")


class HangWatch:
    """
    Decides that a process tree is stuck by logical progress, not by time: all
    threads asleep without a single context switch over QUIET seconds (a
    deadlock), or more than CPU seconds burnt (spinning).
    """

    def __init__(self, pid, quiet=8.0, cpu=90.0, wall=400.0):
        self.pid, self.quiet, self.cpu, self.wall = pid, quiet, cpu, wall
        self.start = time.monotonic()
        self.last, self.since, self.next = None, 0, self.start + 2

    def check(self):
        now = time.monotonic()
        if now < self.next:
            return None
        self.next = now + 0.5
        pids = proc_tree(self.pid)
        a = activity(pids)
        if a is None or a != self.last:
            self.last, self.since = a, now
        elif now - self.since > self.quiet:
            return "deadlock"
        if cpu_seconds(pids) > self.cpu:
            return "spin"
        if now - self.start > self.wall:
            return "watchdog"
        return None


def kill_tree(pid):
    # stopped first and from the top, so that none gets to see another one die
    for sig in (signal.SIGSTOP, signal.SIGKILL):
        for p in proc_tree(pid):
            try:
                os.kill(p, sig)
            except OSError:
                pass


def set_subreaper():
    try:
        ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)
    except Exception:
        pass


# ---------------------------------------------------------------- results
class Result:
    def __init__(self):
        self.viols = []  # (mechanism, description)
        self.incs = []
        self.obs = {}
        self.states = set()
        self.key = None
        self.nontrivial = True
        self.sample = None

    def bad(self, mech, why):
        self.viols.append((mech, why))

    def inc(self, why):
        self.incs.append(why)

    def count(self, name, n=1):
        self.obs[name] = self.obs.get(name, 0) + n

    def state(self, *what):
        self.states.add("|".join(str(w) for w in what))

    def check(self, cond, mech, why):
        if not cond:
            self.bad(mech, why)
        return cond

    def dump(self):
        return {
            "viols": self.viols, "incs": self.incs, "obs": self.obs,
            "states": sorted(self.states), "key": self.key,
            "nontrivial": self.nontrivial, "sample": self.sample,
        }


class Env:
    """What a running case gets: scratch directories and a generator."""

    def __init__(self, ctx, case, name):
        self.ctx = ctx
        self.shm = os.path.join(ctx.shm, name)
        self._disk = os.path.join(ctx.disk, name)
        self.dir = self.shm
        os.makedirs(self.shm, exist_ok=True)
        self.rng = random.Random("%s" % case.get("seed", 0))
        self.shared = ctx.shared

    @property
    def disk(self):
        os.makedirs(self._disk, exist_ok=True)
        return self._disk

    def path(self, name):
        return os.path.join(self.dir, name)

    def cleanup(self):
        shutil.rmtree(self.shm, ignore_errors=True)
        shutil.rmtree(self._disk, ignore_errors=True)


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
        self.shm = tempfile.mkdtemp(prefix="vmon.%s." % prop, dir=base)
        self.disk = tempfile.mkdtemp(prefix="vmon.%s." % prop, dir=os.environ.get("VMON_DISK", "/tmp"))
        for d in (self.shm, self.disk):
            os.chmod(d, 0o755)
        self.shared = {}
        self.n = 0

    def sub(self, *what):
        """A derived seed."""
        h = hashlib.sha256(repr((self.prop, self.seed) + what).encode()).hexdigest()
        return int(h[:15], 16)

    def rng(self, *what):
        return random.Random(self.sub(*what))

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def cleanup(self):
        shutil.rmtree(self.shm, ignore_errors=True)
        shutil.rmtree(self.disk, ignore_errors=True)


def run_one(mod, ctx, case, name):
    env = Env(ctx, case, name)
    member = env.path("extracted/image.raw")
    comp.MEMBER = member if case.get("seed", 0) % 2 else member.lstrip("/")
    try:
        res = mod.run(case, env)
    except Exception:
        res = Result()
        res.inc("harness exception: " + traceback.format_exc()[-1500:])
    finally:
        try:
            dll().vmon_configure(b"")
        except Exception:
            pass
        if not os.environ.get("VMON_KEEP"):
            env.cleanup()
    return res


def child_main(mod, ctx, batch, first, out):
    os.setsid()
    set_subreaper()
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    signal.signal(signal.SIGINT, signal.default_int_handler)
    with open(out, "w") as f:
        for i, case in enumerate(batch):
            f.write(json.dumps({"start": i}) + "\n")
            f.flush()
            r = run_one(mod, ctx, case, "c%d" % (first + i))
            f.write(json.dumps({"done": i, "res": r.dump()}) + "\n")
            f.flush()


def run_pool(mod, ctx, cases, on_result, deadline=None):
    """Run the cases in forked processes; on_result(case, resdict)."""
    batchn = getattr(mod, "BATCH", 1)
    workers = getattr(mod, "WORKERS", NCPU)
    quiet = getattr(mod, "QUIET", 8.0)
    cpu = getattr(mod, "CPU", 120.0)
    it = iter(cases)
    running = {}
    n = 0
    exhausted = stop = False
    while True:
        while not exhausted and not stop and len(running) < workers:
            if deadline and time.monotonic() > deadline:
                exhausted = True
                break
            batch = []
            for case in it:
                batch.append(case)
                if len(batch) >= batchn:
                    break
            if not batch:
                exhausted = True
                break
            out = os.path.join(ctx.shm, "r%d" % n)
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                rc = 0
                try:
                    fd = os.open(os.path.join(ctx.shm, "noise"), os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
                    if not os.environ.get("VMON_VERBOSE"):
                        os.dup2(fd, 2)
                        os.dup2(fd, 1)
                    child_main(mod, ctx, batch, n, out)
                except BaseException:
                    traceback.print_exc()
                    rc = 70
                os._exit(rc)
            running[pid] = (batch, out, HangWatch(pid, quiet, cpu * len(batch)), n)
            n += len(batch)
        if not running:
            break
        try:
            pid, status = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            break
        hang = None
        if pid == 0:
            for p, (b, o, w, f) in list(running.items()):
                hang = w.check()
                if hang:
                    kill_tree(p)
                    try:
                        os.waitpid(p, 0)
                    except ChildProcessError:
                        pass
                    pid, status = p, 9
                    break
            if not hang:
                time.sleep(0.003)
                continue
        if pid not in running:
            continue
        batch, out, _, first = running.pop(pid)
        done = {}
        started = -1
        try:
            with open(out) as f:
                for line in f:
                    d = json.loads(line)
                    if "done" in d:
                        done[d["done"]] = d["res"]
                    else:
                        started = d["start"]
            os.unlink(out)
        except (OSError, ValueError):
            pass
        for i, case in enumerate(batch):
            if i in done:
                res = done[i]
            else:
                r = Result()
                if i == started and hang:
                    r.key = "hang"
                    if hang == "watchdog":
                        r.inc("watchdog fired")
                    elif getattr(mod, "HANG_IS_VIOLATION", True):
                        r.bad("hang:" + hang, "the operation never ends (%s)" % hang)
                    else:
                        r.inc("hang: " + hang)
                elif i == started:
                    r.inc("worker died, status %d" % status)
                else:
                    r.inc("not run")
                    r.obs["not_run"] = 1
                res = r.dump()
            if not on_result(case, res):
                stop = True
        for i in range(len(batch)):
            shutil.rmtree(os.path.join(ctx.shm, "c%d" % (first + i)), ignore_errors=True)
            shutil.rmtree(os.path.join(ctx.disk, "c%d" % (first + i)), ignore_errors=True)
        if stop:
            for p in list(running):
                kill_tree(p)
                try:
                    os.waitpid(p, 0)
                except ChildProcessError:
                    pass
            break


# ---------------------------------------------------------------- driver
def load_known(prop):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                if line.startswith("known: property=%s " % prop):
                    rest = line.split(None, 2)[2]
                    mech, _, what = rest.partition(" ")
                    if mech.startswith("mech="):
                        out[mech[5:]] = what.strip()
    return out


def main(mod, argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("--replay")
    ap.add_argument("--limit", type=int)
    a = ap.parse_args(argv)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.monotonic()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    ctx = Ctx(mod.PROP, tier, seed)
    evdir = os.path.join(VERIF, "evidence")
    rpdir = os.path.join(evdir, "replay")
    os.makedirs(rpdir, exist_ok=True)
    known = load_known(mod.PROP)
    st = {"ev": 0, "keys": set(), "obs": {}, "states": set(), "samples": [],
          "viols": 0, "incs": [], "known": {}, "mechs": set(), "nt": 0}

    def on_result(case, res):
        st["ev"] += 1
        for k, v in res["obs"].items():
            st["obs"][k] = st["obs"].get(k, 0) + v
        st["states"].update(res["states"])
        if res["nontrivial"] and not res["incs"]:
            st["nt"] += 1
            st["keys"].add(res["key"] if res["key"] is not None else json.dumps(case, sort_keys=True))
        if res["sample"] is not None and len(st["samples"]) < 6:
            st["samples"].append(res["sample"])
        for why in res["incs"]:
            st["incs"].append((case, why))
        for mech, why in res["viols"]:
            if mech in known:
                st["known"].setdefault(mech, why)
                continue
            st["viols"] += 1
            if mech in st["mechs"] and st["viols"] > 5 and "VMON_MAXVIOL" not in os.environ:
                continue
            st["mechs"].add(mech)
            path = os.path.join(rpdir, "%s-%s-%d.json" % (mod.PROP, seed, st["viols"]))
            with open(path, "w") as f:
                json.dump({"property": mod.PROP, "seed": seed, "tier": tier, "mech": mech,
                           "why": why, "case": case}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (mod.PROP, path))
            print("  [%s] %s" % (mech, why[:1500]))
            sys.stdout.flush()
        return st["viols"] < int(os.environ.get("VMON_MAXVIOL", "8"))

    try:
        if hasattr(mod, "setup"):
            mod.setup(ctx)
        if a.replay:
            with open(a.replay) as f:
                cases = [json.load(f)["case"]]
        else:
            cases = mod.cases(ctx)
        if a.limit:
            import itertools
            cases = itertools.islice(cases, a.limit)
        budget = float(os.environ.get("VMON_BUDGET", getattr(mod, "BUDGET", {}).get(tier, 420 if tier == "quick" else 3000)))
        run_pool(mod, ctx, cases, on_result, t0 + budget)
    finally:
        if hasattr(mod, "teardown"):
            try:
                mod.teardown(ctx)
            except Exception:
                traceback.print_exc()
        if not os.environ.get("VMON_KEEP"):
            ctx.cleanup()
    wall = time.monotonic() - t0
    for mech, what in known.items():
        seen = "observed" if mech in st["known"] else "not exercised in this run"
        print("KNOWN-FINDING: property=%s %s (%s)" % (mod.PROP, what, seen))
    missing = []
    if not a.replay and not a.limit:
        for k, v in getattr(mod, "REQUIRE", {}).items():
            if st["obs"].get(k, 0) < v:
                missing.append("%s=%d < %d" % (k, st["obs"].get(k, 0), v))
    ninc = len(st["incs"])
    ev = {
        "property": mod.PROP, "tier": tier, "seed": seed, "level": mod.LEVEL,
        "coverage": {
            "evaluations": st["ev"],
            "distinct_nontrivial": len(st["keys"]),
            "rule": mod.RULE,
            "samples": st["samples"] or [{"note": "no samples"}],
            "observed": dict(sorted(st["obs"].items())),
            "distinct_states": len(st["states"]),
            "state_examples": sorted(st["states"])[:12],
            "inconclusive": ninc,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": st["viols"],
    }
    if not a.replay:
        with open(os.path.join(evdir, "%s.json" % mod.PROP), "w") as f:
            json.dump(ev, f, indent=1)
    for case, why in st["incs"][:3]:
        print("inconclusive: %s\n  case %s" % (why[-1500:], json.dumps(case)[:600]))
    print("%s %s seed=%d: %d evaluations, %d distinct, %d states, %d violations, %d inconclusive, %.1fs"
          % (mod.PROP, tier, seed, st["ev"], len(st["keys"]), len(st["states"]), st["viols"], ninc, wall))
    if st["viols"]:
        return 1
    if missing:
        print("inconclusive: too little observed: " + ", ".join(missing))
        return 2
    if ninc and (ninc > 3 and ninc > 0.02 * st["ev"]) or (a.replay and ninc):
        print("inconclusive: %d cases" % ninc)
        return 2
    return 0
