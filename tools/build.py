"""What a check needs before it can run: the contracts built from /repo's working tree, the runner of the contracts (refsim) and the
Java evaluators of the specification. Everything goes into /verif/.build, which git ignores."""
import fcntl, glob, hashlib, lzma, os, shutil, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = {"ex": ("ref-exchange", "ref_exchange.wasm"), "farm": ("ref_farming", "ref_farming.wasm")}


# as the repository builds them, but in parts side by side and not optimized across crates, which halves the time and changes no behaviour
FASTER = "--config 'profile.release.lto=\"off\"' --config profile.release.codegen-units=16"


class ToolError(Exception):
    pass


def sh(cmd, cwd=None, timeout=800, env=None):
    r = subprocess.run(["bash", "-c", cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=env)
    return r.returncode, r.stdout


def digest(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(os.path.relpath(f, VERIF).encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


def locked(f):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        return f()


def harness_sources():
    h = os.path.join(VERIF, "harness")
    return [f for f in glob.glob(h + "/**/*", recursive=True) if os.path.isfile(f) and "/target/" not in f and "/prebuilt/" not in f]


def refsim():
    """the committed binary if it is of these sources and runs here, a fresh build otherwise (it contains nothing of /repo)"""
    out = os.path.join(BUILD, "refsim")
    want = digest(harness_sources())
    stamp = out + ".src"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == want:
        return out
    pre = os.path.join(VERIF, "harness/prebuilt")
    if os.path.exists(pre + "/refsim.src") and open(pre + "/refsim.src").read().strip() == want:
        with lzma.open(pre + "/refsim.xz") as f, open(out, "wb") as g:
            shutil.copyfileobj(f, g)
        os.chmod(out, 0o755)
        if subprocess.run([out, "--version"], stdin=subprocess.DEVNULL, capture_output=True).returncode == 0:
            open(stamp, "w").write(want)
            return out
    rc, log = sh(". /opt/vp/env.sh; cd %s/harness && CARGO_INCREMENTAL=0 CARGO_TARGET_DIR=%s/harness cargo build --offline --locked --release" % (VERIF, BUILD))
    if rc:
        raise ToolError("harness does not build:\n" + log[-3000:])
    shutil.copy(BUILD + "/harness/release/refsim", out)
    open(stamp, "w").write(want)
    return out


def classes():
    out = os.path.join(BUILD, "classes")
    src = [VERIF + "/spec/%s.java" % n for n in ("BigNum", "Newton", "Try")]
    want = digest(src)
    if not (os.path.exists(out + "/src") and open(out + "/src").read() == want):
        os.makedirs(out, exist_ok=True)
        rc, log = sh("javac -d %s -cp /opt/veriftools/tla/tla2tools.jar %s" % (out, " ".join(src)))
        if rc:
            raise ToolError("javac: " + log)
        open(out + "/src", "w").write(want)
    return out


def wasm(kinds):
    """builds the contracts from /repo's working tree; the dependencies may come from an earlier build, the contracts never do"""
    tgt = os.path.join(BUILD, "target")
    old = os.path.join(REPO, "target")
    if not os.path.exists(tgt):
        os.makedirs(tgt)
        for d in ("release", "wasm32-unknown-unknown/release"):
            for sub in (".fingerprint", "build", "deps"):
                if os.path.isdir(os.path.join(old, d, sub)):
                    os.makedirs(os.path.join(tgt, d), exist_ok=True)
                    sh("cp -a %s/%s/%s %s/%s/" % (old, d, sub, tgt, d))
    out = os.path.join(BUILD, "wasm")
    os.makedirs(out, exist_ok=True)

    def one(k):
        pkg, f = PKG[k]
        base = tgt + "/wasm32-unknown-unknown/release"
        for p in glob.glob("%s/.fingerprint/%s-*" % (base, pkg)) + glob.glob("%s/deps/*%s*" % (base, pkg.replace("-", "_"))):
            shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
        rc, log = sh(". /opt/vp/env.sh; cd %s && CARGO_INCREMENTAL=0 cargo build --offline --locked -p %s --target wasm32-unknown-unknown --release %s --target-dir %s" % (REPO, pkg, FASTER, tgt))
        if rc:
            raise ToolError("%s does not build:\n%s" % (pkg, log[-3000:]))
        shutil.copy(os.path.join(base, f), os.path.join(out, f))
    for k in kinds:
        one(k)
    return out


def prepare(kinds):
    def all_():
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(3) as ex:
            w, r, c = ex.submit(wasm, kinds), ex.submit(refsim), ex.submit(classes)
            return w.result(), r.result(), c.result()
    return locked(all_)


if __name__ == "__main__":
    if sys.argv[1:] == ["prebuilt"]:  # after a change of the harness
        b = os.path.join(BUILD, "refsim.src")
        if os.path.exists(b):
            os.remove(b)
        p = os.path.join(VERIF, "harness/prebuilt")
        shutil.rmtree(p, ignore_errors=True)
        f = refsim()
        os.makedirs(p)
        sh("strip -o %s/refsim %s && xz -9 %s/refsim" % (p, f, p))
        open(p + "/refsim.src", "w").write(digest(harness_sources()))
    else:
        print(*prepare(["ex", "farm"]))
