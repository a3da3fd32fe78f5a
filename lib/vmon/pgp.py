"""Throw-away OpenPGP keys and signatures."""

import os
import shutil
import subprocess

BASE = {"PATH": "/usr/local/bin:/usr/bin:/bin", "LANG": "C.UTF-8"}

# name -> (how it is made, in the user's keyring, owner trust there, usable for accepted signatures)
KEYS = ("good", "good2", "nist", "subkey", "certified", "unknown", "untrusted", "never", "marginal", "expired", "revoked")
GOOD = ("good", "good2", "nist", "subkey", "certified")
BAD = ("unknown", "untrusted", "never", "marginal", "expired", "revoked", "expsig")
TRUST = {"good": 6, "good2": 6, "nist": 5, "subkey": 6, "never": 3, "marginal": 4, "expired": 6, "revoked": 6}


class Ring:
    def __init__(self, dir):
        self.sec, self.user, self.empty = (os.path.join(dir, x) for x in ("sec", "user", "empty"))
        for d in (self.sec, self.user, self.empty):
            os.makedirs(d, 0o700)
        self.fpr = {}
        algo = {"nist": "nistp256"}
        for k in KEYS:
            when = ["--faked-system-time", "20190101T000000!"]
            self.gpg(when + ["--quick-gen-key", "Key %s <%s@example.com>" % (k, k), algo.get(k, "ed25519"),
                             "cert" if k == "subkey" else "sign", "1y" if k == "expired" else "never"])
            out = self.gpg(["--with-colons", "--list-keys", "%s@example.com" % k]).decode()
            self.fpr[k] = [ln.split(":")[9] for ln in out.splitlines() if ln.startswith("fpr")][0]
        self.gpg(["--faked-system-time", "20190102T000000!", "--quick-add-key", self.fpr["subkey"], "ed25519", "sign", "never"])
        self.gpg(["-u", self.fpr["good"], "--yes", "--quick-sign-key", self.fpr["certified"]])
        # the nist key is trusted because the good key certified it and made it an introducer
        self.gpg(["-u", self.fpr["good"], "--yes", "--quick-sign-key", self.fpr["nist"]])
        with open(os.path.join(self.sec, "openpgp-revocs.d", self.fpr["revoked"] + ".rev")) as f:
            rev = f.read().replace(":-----BEGIN", "-----BEGIN")
        keys = self.gpg(["--export"] + [self.fpr[k] for k in KEYS if k != "unknown"])
        self.gpg(["--import"], keys, self.user)
        self.gpg(["--import"], rev.encode(), self.user)
        self.gpg(["--import-ownertrust"], "".join("%s:%d:\n" % (self.fpr[k], t) for k, t in TRUST.items()).encode(), self.user)
        self.gpg(["--check-trustdb"], home=self.user)
        self.gpg(["--list-keys"], home=self.empty)

    def gpg(self, args, stdin=b"", home=None, check=True):
        p = subprocess.run(["gpg", "--batch", "--quiet", "--no-tty", "--passphrase", "", "--pinentry-mode", "loopback"] + args,
                           input=stdin, env=dict(BASE, GNUPGHOME=home or self.sec), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if check and p.returncode:
            raise RuntimeError("gpg %r: %s" % (args, p.stderr.decode(errors="replace")))
        return p.stdout

    def sign(self, data, keys, how="--detach-sign", armor=False, digest=None):
        a = []
        for k in keys:
            a += ["-u", self.fpr["good" if k == "expsig" else k]]
        if "expsig" in keys:
            a += ["--faked-system-time", "20200101T000000!", "--default-sig-expire", "10d"]
        elif "expired" in keys:
            a += ["--faked-system-time", "20190601T000000!"]
        if armor and how != "--clearsign":
            a.append("--armor")
        if digest:
            a += ["--digest-algo", digest]
        return self.gpg(a + [how], data)

    def export(self, key):
        return self.gpg(["--armor", "--export", self.fpr[key]])

    def close(self):
        for d in (self.sec, self.user, self.empty):
            subprocess.run(["gpgconf", "--kill", "all"], env=dict(BASE, GNUPGHOME=d), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)

    def home(self, dst, which="user"):
        """A private copy of a key ring."""
        os.makedirs(dst, 0o700)
        src = getattr(self, which)
        for f in os.listdir(src):
            if not f.startswith("S."):
                p = os.path.join(src, f)
                (shutil.copytree if os.path.isdir(p) else shutil.copyfile)(p, os.path.join(dst, f))
        return dst
