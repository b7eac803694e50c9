"""Which runs a check makes: the scenario scripts and the module that judges their traces."""
import attrib, gen

FARMING = {"C20", "C21", "C22", "C23"}
ASSUMPTIONS = [
    "the runtime's semantics of receipts, promises and balances are those of the harness (near-vm-logic 3.1 with its own scheduler)",
    "token contracts follow NEP-141; their answers, failures and refusals are chosen by the scenario",
    "the owner does not take managed tokens with the rescue call for unmanaged ones"]


class Plan:
    """twin: the script of the same history with nothing written by an earlier release; what differs there too is no matter of the past"""

    def __init__(self, name, text, module, follow, twin=None, parts=()):
        self.parts = parts  # the plans this one is put together of
        self.name, self.text, self.module, self.follow, self.twin = name, text, module, follow, twin


def plan(prop, name, s, farm=None, twin=None):
    return Plan(name, s.text(), *(("FarmTrace", attrib.Farming) if (prop in FARMING if farm is None else farm) else ("ExTrace", attrib.Exchange)), twin and twin.text())


def of(prop, seed, tier):
    if prop == "C24":
        return [plan(prop, n, s, farm, t) for (n, s, farm), (_, t, _) in zip(gen.past(seed, tier, False), gen.past(seed, tier, True))]
    more = [plan(prop, n, s, True) for n, s in gen.directed("fm_core", "fm", 3)] if prop == "C19" else []
    return [plan(prop, n, s) for n, s in (gen.farming if prop in FARMING else gen.scripts)(seed, tier, prop)] + more


def bundles(ps, n):
    """the same runs one behind the other in about n scripts of like length (each run starts afresh): what starts a checker counts"""
    out = []
    for k in sorted({(p.module, p.twin is None) for p in ps}):
        mine = sorted((p for p in ps if (p.module, p.twin is None) == k), key=lambda p: -weight(p))
        m = max(1, round(n * sum(map(weight, mine)) / sum(map(weight, ps))))
        bs = [[] for _ in range(min(m, len(mine)))]
        for p in mine:
            min(bs, key=lambda b: sum(map(weight, b))).append(p)
        out += [Plan("+".join(p.name for p in b), "".join(p.text for p in b), b[0].module, b[0].follow, None if k[1] else "".join(p.twin for p in b), b) for b in bs]
    return sorted(out, key=lambda p: -weight(p))


def weight(p):
    return p.text.count("\n") * (1.6 if p.name.startswith(("prod", "rate", "lim")) else 1) + 150


A = attrib
REL = {"C01": A.WD | A.SWAP | A.ADD | A.REM | {"ft_on_transfer"}, "C02": A.WD, "C03": A.MFT | A.DON | A.ADD | A.REM, "C04": A.SWAP | {"ft_on_transfer"},
       "C05": A.ADD | A.REM, "C06": A.SWAP | A.ADD | A.REM, "C07": A.SWAP | A.ADD | A.REM, "C08": A.SWAP | A.ADD | A.REM | {"ft_on_transfer"},
       "C09": A.SWAP | A.ADD | A.REM | A.FEES, "C10": A.SWAP | {"ft_on_transfer"}, "C11": A.SHADOW | A.MFT | A.DON | A.REM, "C12": A.MFT, "C13": A.STOR,
       "C14": A.ROLES | A.CALLBACKS, "C15": A.LISTS | A.SWAP | A.ADD | A.REM | {"ft_on_transfer"}, "C16": A.TWAP | A.SWAP | A.ADD | A.REM, "C17": A.RAMP, "C18": A.RATE,
       "C20": A.F_SEED | {"ft_on_transfer"}, "C21": A.F_CLAIM | A.F_REW | A.F_OWN | {"ft_on_transfer"}, "C22": A.F_CLAIM | A.F_SEED | {"ft_on_transfer"},
       "C23": A.F_REW | A.F_STOR | A.F_OWN, "C24": {"upgrade", "deploy_contract", "migrate", "same"}}


def relevant(prop):
    return REL.get(prop, set())
