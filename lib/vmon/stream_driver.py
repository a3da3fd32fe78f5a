"""
Uses the API in a process of its own (so that hangs and left-overs can be seen
from outside).  argv[1]: JSON description.  Prints a JSON report.
"""
import json
import os
import sys
import threading
import time


def kids():
    out = []
    for t in os.listdir("/proc/self/task"):
        try:
            with open("/proc/self/task/%s/children" % t) as f:
                out += f.read().split()
        except OSError:
            pass
    names = []
    for k in out:
        try:
            with open("/proc/%s/stat" % k) as f:
                w = f.read()
            names.append(w[w.index("(") + 1:w.rindex(")")] + " " + w.rpartition(")")[2].split()[0])
        except OSError:
            pass
    return names


def fds():
    n = 0
    for f in os.listdir("/proc/self/fd"):
        try:
            if os.readlink("/proc/self/fd/" + f).startswith(("pipe:", "socket:")):
                n += 1
        except OSError:
            pass
    return n


def main():
    d = json.loads(sys.argv[1])
    from bmaptools import BmapCopy, TransRead
    rep = {"steps": [], "error": None, "kids": None, "threads": None}
    sys.stdout.flush()
    base = fds()
    try:
        o = TransRead.TransRead(d["path"])
        if d.get("copy"):
            c = d["copy"]
            with open(c["dest"], "wb+") as fo:
                fb = open(c["bmap"], "rb") if c.get("bmap") else None
                w = BmapCopy.BmapCopy(o, fo, fb)
                try:
                    w.copy(True, c.get("verify", True))
                    rep["copied"] = True
                except Exception as e:
                    rep["error"] = "%s: %s" % (type(e).__name__, e)
                    if c.get("wait"):
                        time.sleep(0.2)
        else:
            for st in d["steps"]:
                if st[0] == "read":
                    rep["steps"].append(len(o.read(st[1])))
                elif st[0] == "seek":
                    o.seek(st[1])
                    rep["steps"].append(o.tell())
                elif st[0] == "sleep":
                    time.sleep(st[1])
                elif st[0] == "kill":
                    for k in o._child_processes[-1:]:
                        k.kill()
    except Exception as e:
        rep["error"] = "%s: %s" % (type(e).__name__, e)
    how = d.get("end", "close")
    try:
        if how == "close":
            o.close()
        elif how == "twice":
            o.close()
            o.close()
        elif how == "del":
            if "w" in locals():
                del w
            del o
        elif how == "exit":
            pass
    except UnboundLocalError:
        pass
    except Exception as e:
        rep["close_error"] = "%s: %s" % (type(e).__name__, e)
    if how != "exit":
        for i in range(60):
            rep["kids"] = kids()
            rep["threads"] = threading.active_count()
            rep["fds"] = fds() - base
            if not rep["kids"] and rep["threads"] == 1:
                break
            time.sleep(0.05)
    sys.stdout.write(json.dumps(rep) + "\n")
    sys.stdout.flush()


main()
