"""The worlds TLC explores for a property (spec/ExWorld.tla, spec/FarmWorld.tla): exhaustively for the model's invariants, and at random
for histories, which are then run in the contract and checked like every other run."""
import importlib, json, os, random, re, time

EX = {"C01": ["wd", "swaps"], "C02": ["wd", "swaps"], "C03": ["mft", "liquidation"], "C04": ["tiny", "swaps"], "C05": ["tiny"], "C06": ["curve"], "C07": ["rates", "degen"],
      "C08": ["tiny", "curve"], "C09": ["tiny", "curve"], "C10": ["swaps"], "C11": ["shadow", "liquidation"], "C12": ["mft"], "C13": ["wd", "shadow", "legacy"], "C14": ["wd", "mft", "shadow"],
      "C15": ["wd", "swaps"], "C16": ["curve"], "C17": ["curve"], "C18": ["rates", "degen"], "C19": ["swaps", "curve"], "C24": ["legacy"]}

FARM = {"C20": ["stakes", "shares"], "C21": ["sessions", "payouts", "shares"], "C22": ["sessions", "stakes"], "C23": ["payouts", "stakes"]}


class Model:
    def __init__(self, name, module, world, tier, walks):
        self.name, self.module, self.world, self.tier, self.walks = name, module, world, tier, walks


def of(prop, tier):
    n = 40 if tier == "quick" else 1500
    ms = [Model(w, "ExWorld", "worlds", tier, n) for w in EX.get(prop, [])] + [Model(w, "FarmWorld", "farmworlds", tier, n) for w in FARM.get(prop, [])]
    if prop in ("C06", "C07"):  # the iterations TLC runs through Newton.java, against their definitions in TLA+
        ms.append(Model("newton", "NewtonCheck", None, tier, 0))
    return ms


def worldfile(m, work):
    if not m.world:
        return ""
    path = os.path.join(work, "world_%s.json" % m.name)
    if not os.path.exists(path):
        mod = importlib.import_module(m.world)
        wd = mod.WORLDS[m.name]()
        if m.tier != "quick":
            wd["calls"] += 1
            wd["long"] += 4
        open(path, "w").write(mod.jsonline(wd))
    return path


def explore(m, tlc, work):
    """every behaviour of the world within its bounds"""
    t0 = time.time()
    quick = m.tier == "quick"
    rc, out = tlc(["-config", m.module + ".cfg", m.module + ".tla"], work, "mc_" + m.name, {"WORLD": worldfile(m, work)}, 300 if quick else 2400, "2g" if quick else "8g", 2 if quick else 4)
    st = re.findall(r"([\d,]+) states generated[^,]*, ([\d,]+) distinct", out)
    gen, dis = [int(x.replace(",", "")) for x in st[-1]] if st else (0, 0)
    done = "No error has been found" in out
    err = None
    if not done and "timeout" not in out[-20:]:
        i = out.find("Error:")
        err = re.sub(r"\s+", " ", out[i:i + 600])
    return {"name": m.name, "states": dis, "transitions": gen, "complete": done, "error": err, "wall_s": round(time.time() - t0, 1)}


def walks(m, seed, tlc, work):
    """histories that TLC walked at random, one per behaviour"""
    n = m.walks
    rc, out = tlc(["-simulate", "num=%d" % n, "-depth", "200", "-seed", str(random.Random("%s/%s" % (seed, m.name)).randrange(1, 2**31)), "-config", m.module + "Sim.cfg", m.module + ".tla"],
                  work, "walk_" + m.name, {"WORLD": worldfile(m, work)}, 300 if m.tier == "quick" else 1800)
    by = {}
    for l in out.splitlines():
        if l.startswith('@@<<"WALK"'):
            w = json.loads(json.loads('"' + l[l.index(', "') + 3:l.rindex('"')] + '"'))
            by.setdefault(json.dumps(w[:-1]), []).append(w)
    if not by:
        raise RuntimeError("no walks of %s: %s" % (m.name, out[-1500:]))
    r = random.Random("%s/%s" % (seed, m.name))
    picked = [r.choice(by[k]) for k in sorted(by)]
    r.shuffle(picked)
    return picked[:n]


def histories(m, seed, tlc, work):
    """[(name, script, its twin without the past of an earlier release or None)]"""
    if not m.walks:
        return []
    mod = importlib.import_module(m.world)
    ws = walks(m, seed, tlc, work)
    per = 40 if m.tier == "quick" else 150
    make = lambda k, **a: mod.script(m.name, ws[k:k + per], random.Random("%s/%s/%d" % (seed, m.name, k)), **a)
    return [("walk_%s_%d" % (m.name, k // per), make(k), make(k, twin=True) if m.name == "legacy" else None) for k in range(0, len(ws), per)]
