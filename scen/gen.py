"""gen.py OUTDIR [seed] [tier]: writes the scripts of all scenario files"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib


def directed(mod, name, groups=1, base=None):
    """scripts with a base state and then the scenarios of a module, each from that state"""
    m = importlib.import_module(mod)
    out = []
    for g in range(groups):
        s = lib.Script()
        (base or getattr(m, "base", lib.base))(s)
        s.snap("base")
        for f in m.ALL[g::groups]:
            s.restore("base", f.__name__)
            f(s)
        if name[:2] != "fm":
            lib.panorama(s)
        out.append(("%s_%d" % (name, g), s))
    return out


def random_ones(seed, tier, prop):
    import rnd
    n, ep, st = (8, 3, 60) if tier == "quick" else (40, 10, 150)
    return [("rnd_%d" % k, rnd.script("%s/%s/%d" % (seed, prop, k), ep, st)) for k in range(n)]


def past(seed, tier, twin):
    """(name, script, of the farming contract) from states that earlier releases wrote; with twin, the same from states of the current code"""
    import ex_past, fm_core, fm_past
    out = []
    for way in (0, 1):
        b = lambda s: ex_past.base(s, way, twin)
        out += [(n, s, False) for n, s in directed("ex_past", "past%d" % way, 1, b)]
        for k, (mod, name) in enumerate(PLAIN):
            out += [(n, s, False) for n, s in directed(mod, "past%d_%s" % (way, name), 2, b) if int(n[-1]) == (k + way) % 2]
        out += [(n, s, True) for n, s in directed("fm_past", "fmpast%d" % way, 1, lambda s: fm_past.base(s, way, twin))]

        import rnd
        n, ep, st = (2, 3, 50) if tier == "quick" else (20, 10, 120)
        out += [("past%d_rnd_%d" % (way, k), rnd.script("%s/C24/%d/%d" % (seed, way, k), ep, st, (b, 2400 * 10**9)), False) for k in range(n)]

        def early(s):
            fm_core.base(s, **({} if twin else {"farmcode": fm_past.RELEASE}))
            fm_past.renew(s, way, twin)

        out += [(n, s, True) for n, s in directed("fm_core", "fmpast%d_fm" % way, 1, early)]
    return out


PLAIN = (("ex_core", "core"), ("ex_tok", "tok"), ("ex_gov", "gov"), ("ex_rate", "rate"), ("ex_kinds", "kinds"))
POOLS = {"C01", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C16", "C17", "C18", "C19"}


def scripts(seed, tier, prop):
    out = []
    for mod, name in PLAIN:
        out += directed(mod, name, 2)
    import ex_lim, ex_mat, ex_past, ex_prod
    if prop in {"C01", "C02", "C13", "C19", "all"}:
        out += directed("ex_past", "past", 1)
    which, groups = (prop, 3) if tier == "quick" else ("all", 8)
    out += ex_mat.scripts(which, groups) + ex_lim.scripts(which, groups) + (ex_prod.scripts(seed, tier, prop) if prop in POOLS else []) + random_ones(seed, tier, prop)
    if prop == "C19":
        out = [(n, lib.foretell(s)) for n, s in out]
    return out


def farming(seed, tier, prop):
    import fm_mat, frnd
    n, ep, st = (13, 3, 90) if tier == "quick" else (60, 10, 200)
    return directed("fm_core", "fm", 3) + fm_mat.scripts(4 if tier == "quick" else 8) + [("frnd_%d" % k, frnd.script("%s/%s/%d" % (seed, prop, k), ep, st)) for k in range(n)]


if __name__ == "__main__":
    d = sys.argv[1]
    seed = sys.argv[2] if len(sys.argv) > 2 else "1"
    tier = sys.argv[3] if len(sys.argv) > 3 else "quick"
    for n, s in scripts(seed, tier, os.environ.get("PROP", "all")) + farming(seed, tier, "all"):
        open(os.path.join(d, n + ".jsonl"), "w").write(s.text())
