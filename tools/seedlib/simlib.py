"""Helper of the demonstrations: runs a script in the built contracts (res/*.wasm of the current folder) and gives the records back."""
import lzma, os, subprocess, sys, tempfile, json, copy

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from lib import *


class Rec:
    def __init__(self, r, st):
        self.r, self.st = r, st

    @property
    def ok(self):
        return self.r.get("ok")

    @property
    def val(self):
        return (self.r.get("ret") or {}).get("v") if self.r["t"] != "view" else self.r.get("v")

    def user(self, u):
        return self.st.get("a/" + u, {})

    def tok(self, u, t):
        return int(self.user(u).get("tok", {}).get(t, "0"))

    def pool(self, i):
        return self.st["p/%d" % i]

    def sh(self, i, u):
        return int(self.pool(i)["sh"].get(u, "0"))

    def led(self, t, u):
        return int(self.st.get("b/" + t, {}).get(u, "0"))


def go(s):
    """runs the script; records in order, each with the state after it"""
    with tempfile.TemporaryDirectory() as d:
        exe = os.path.join(d, "refsim")
        with open(exe, "wb") as f:
            f.write(lzma.open(os.path.join(HERE, "refsim.xz")).read())
        os.chmod(exe, 0o755)
        r = subprocess.run([exe, "res"], input=s.text(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=250)
    if r.returncode:
        print("cannot run:", r.stderr[-800:])
        sys.exit(3)
    st, out = {}, []
    for l in r.stdout.splitlines():
        x = json.loads(l)
        if x["t"] == "init":
            st = {}
        st = dict(st)
        for k, v in x.get("delta", {}).items():
            if v == "none":
                st.pop(k, None)
            else:
                st[k] = v
        out.append(Rec(x, st))
    return out


def calls(recs, m, p=None):
    return [x for x in recs if x.r["t"] == "call" and x.r.get("m") == m and (p is None or x.r.get("p") == p)]


def last(recs, m, p=None):
    return calls(recs, m, p)[-1]


def views(recs, m):
    return [x for x in recs if x.r["t"] == "view" and x.r.get("m") == m]


def want(c, what):
    if not c:
        print("DEMO FAILS:", what)
        sys.exit(1)


def done():
    print("fine")
    sys.exit(0)
