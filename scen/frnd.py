"""Random runs of the farming contract."""
import random
from lib import *
import fm_core as C
from fm_core import FM, FUSERS


class Rnd:
    def __init__(self, s, r):
        self.s, self.r = s, r
        self.farms = ["seed#0", "seed#1", "ex@0#0"]
        self.left = {}
        self.n = {"seed": 2, "ex@0": 1, "sed2": 0}
        self.now = 0
        self.pend = 0

    def amount(self, big=10):
        r = self.r
        return r.choice([E18, r.randrange(E18, big * E18), 3 * E18, E18 + 1, E18 - 1 if r.random() < .2 else 2 * E18, 1 if r.random() < .1 else 5 * E18])

    def user(self):
        return self.r.choice(FUSERS + (["dave"] if self.r.random() < .1 else []))

    def rewtok(self, f):
        return "rew2" if f == "seed#1" else "rew"

    def o_stake(self):
        C.stake(self.s, self.user(), self.amount(), self.r.choice(["seed", "seed", "seed", "sed2"]))

    def o_share(self):
        C.share(self.s, self.user(), self.amount(5))

    def o_fund(self):
        f = self.r.choice(self.farms)
        C.fund(self.s, f, self.r.choice([self.amount(200), 10**17 + 3, self.amount(50)]), self.rewtok(f) if self.r.random() < .95 else "rew", self.r.choice(["owner", "bob"]))

    def o_time(self):
        self.s.secs(self.r.choice([1, 30, 59, 60, 61, 120, 300, 17, 100, 1000, 5000 if self.r.random() < .3 else 240]))

    def o_claim(self):
        if self.r.random() < .6:
            C.claim(self.s, self.user(), self.r.choice(self.farms))
        else:
            C.claims(self.s, self.user(), self.r.choice(["seed", "ex@0", "sed2"]))

    def maybe(self, s, tok):
        """a withdrawal left in flight, failed, or finished"""
        x = self.r.random()
        if x < .5:
            s.drain()
        elif x < .7:
            s.exec({"to": tok}, out="fail")
            if self.r.random() < .6:
                s.drain()

    def o_out(self):
        sd = self.r.choice(["seed", "seed", "seed", "ex@0", "sed2"])
        C.out(self.s, self.user(), sd, self.amount() if self.r.random() < .8 else 2 * E18, drain=False)
        self.maybe(self.s, sd.split("@")[0])

    def o_outall(self):
        """everything: the amount is unknown here, so halves down from above are tried"""
        u = self.user()
        for n in (3 * E18, 2 * E18, E18, E18):
            C.out(self.s, u, "seed", n, drain=False)
            self.maybe(self.s, "seed")

    def o_take(self):
        t = self.r.choice(["rew", "rew", "rew2"])
        C.take(self.s, self.user(), t, None if self.r.random() < .6 else self.amount(), drain=False)
        self.maybe(self.s, t)

    def o_exec(self):
        self.s.exec(self.r.randrange(5), out="fail" if self.r.random() < .1 else None)

    def o_block(self):
        u, t = self.user(), self.r.choice(["seed", "rew"])
        (self.s.block if self.r.random() < .4 else self.s.unblock)(t, u)

    def o_new(self):
        sd = self.r.choice(["seed", "sed2", "ex@0"])
        C.farm(self.s, sd, self.r.choice([E18, 10**15, 5 * E18 + 1]), self.r.choice([0, C.T0 + self.r.randrange(5000)]), self.r.choice([1, 13, 60, 600]), low=self.r.choice([None, 5]))
        self.farms.append("%s#%d" % (sd, self.n[sd]))
        self.n[sd] += 1

    def o_clean(self):
        f = self.r.choice(self.farms)
        self.s.run("owner", "force_clean_farm", {"farm_id": f}, to=FM)
        if self.r.random() < .5:
            self.s.run(self.user(), "remove_user_rps_by_farm", {"farm_id": f}, to=FM)

    def o_store(self):
        u = self.user()
        x = self.r.random()
        if x < .5:
            self.s.run(u, "storage_deposit", {}, self.r.choice([NEAR // 50, NEAR // 5, 1]), to=FM)
        elif x < .75:
            self.s.ok(u, "storage_withdraw", {}, to=FM)
        else:
            self.s.one(u, "storage_unregister", {}, to=FM)

    def o_pause(self):
        self.s.ok("owner", "pause_contract", to=FM)
        if self.r.random() < .5:
            self.o_claim()
            self.o_stake()
        self.s.ok("owner", "resume_contract", to=FM)

    def o_look(self):
        C.look(self.s, self.user(), self.r.choice(self.farms))

    OPS = dict(stake=10, share=4, fund=5, time=14, claim=12, out=8, outall=3, take=6, exec=4, block=3, new=1, clean=2, store=3, pause=1, look=2)

    def run(self, steps):
        for f in ("seed#0", "ex@0#0"):
            if self.r.random() < .8:
                C.fund(self.s, f, 500 * E18)
        for _ in range(steps):
            op = self.r.choices(list(self.OPS), list(self.OPS.values()))[0]
            getattr(self, "o_" + op)()
        self.s.drain()


def script(seed, episodes, steps):
    s = Script()
    C.base(s)
    s.snap("base")
    for e in range(episodes):
        s.restore("base", "frnd%d" % e)
        Rnd(s, random.Random("%s/%d" % (seed, e))).run(steps)
    return s
