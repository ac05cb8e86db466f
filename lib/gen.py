"""Random scenarios (scripts of public API calls) for napdrv."""
import random

NCB, CB, LSCB, GB = [], ["-cb"], ["-lscb"], ["-gb"]
BASE = [NCB, CB, LSCB, GB]
GBX = [["-gb", "-lcm"], ["-gb", "-ecm"], ["-gb", "-bl"], ["-gb", "-bsc"], ["-gb", "-bfc"], ["-gb", "--restarts", "off"],
       ["-gb", "-vsids-approx-cost"], ["-gb", "--chunk-level-penalty", "2"], ["-gb", "--backtrack-possibilities-limit", "1"], ["-gb", "--backtrack-possibilities-limit", "0"],
       ["-gb", "-bl", "-lcm"], ["-gb", "--delete-clauses", "off"], ["-gb", "-max-approx-cost"], ["-gb", "-sum-approx-cost"]]
MISC = [["--restarts", "off"], ["-cb", "--restarts", "off"], ["-lscb", "--restarts", "off"], ["--delete-clauses", "off"],
        ["-lscb", "--delete-clauses", "off"], ["--clause-elimination-multiplier", "1.01"], ["-cb", "--var-activity-decay", "0.5"]]
EVERY = BASE + GBX + MISC


def mixed(R, opts):
    """the same strategy with settings chosen at random"""
    o = [x for x in opts if x in ("-cb", "-lscb", "-gb", "-iuv")]
    pick = lambda p, *c: o.extend(R.choice(c)) if R.random() < p else None
    if "-gb" in o:
        pick(.4, ["-lcm"] if "-lcm" in opts else ["-ecm"], ["-ecm"], [])
        pick(.5, ["-bl"])
        pick(.5, ["-bsc"], ["-bfc"])
        pick(.5, ["-vsids-approx-cost"], ["-max-approx-cost"], ["-sum-approx-cost"])
        pick(.4, *(["--chunk-level-penalty", x] for x in ("0", "0.01", "2", "1000")))
        pick(.4, *(["--backtrack-possibilities-limit", x] for x in ("0", "1", "2", "5", "1000")))
        pick(.3, *(["--sync-weight", x] for x in ("0", "1", "100")))
    pick(.3, ["--restarts", "off"], ["--restarts", "on"])
    pick(.25, ["--delete-clauses", "off"])
    pick(.4, *(["--clause-elimination-multiplier", x] for x in ("1", "1.01", "1.2", "5")))
    pick(.4, *(["--clause-activity-multiplier", x] for x in ("0.5", "1", "2", "1000", "1e20")))
    pick(.4, *(["--clause-activity-threshold-decay", x] for x in ("0", "0.5", "1")))
    pick(.4, *(["--var-activity-decay", x] for x in ("0.001", "0.1", "0.5", "1", "1.5")))
    return o

BIG, IUV, TRACED, SINGLE, PLAIN, LAZY, WATCHED, CHRONO, EXACT, MINIMAL, ASKING = 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024


class Gen:
    def __init__(self, seed):
        self.R = random.Random(seed)
        self.out = []
        self.count = 0

    def lit(self, n):
        return self.R.choice([-1, 1]) * self.R.randint(1, n)

    def clause(self, n, sizes=(1, 2, 2, 3, 3, 3)):
        k = min(self.R.choice(sizes), n)
        c = [v if self.R.random() < .5 else -v for v in self.R.sample(range(1, n + 1), k)]
        if self.R.random() < .03:          # repeated literals, tautologies
            c.append(self.R.choice(c) * self.R.choice([1, 1, -1]))
        return c

    def add(self, n, sizes=(1, 2, 2, 3, 3, 3)):
        return self.R.choice(["add ", "add ", "add ", "push "]) + " ".join(map(str, self.clause(n, sizes)))

    def planted(self, n, m, k=3):
        """a satisfiable formula: every clause holds in a hidden assignment"""
        a = [self.R.choice([-1, 1]) for _ in range(n + 1)]
        cs = []
        for _ in range(m):
            vs = self.R.sample(range(1, n + 1), k)
            c = [v if self.R.random() < .5 else -v for v in vs]
            if not any(x * a[abs(x)] > 0 for x in c):
                j = self.R.randrange(k)
                c[j] = -c[j]
            cs.append(c)
        return cs

    def scenario(self, n, opts, lines, traced=True, big=False, iuv=False):
        flags = WATCHED if traced == "watches" else 0
        flags |= (BIG if big else 0) | (IUV if iuv or "-iuv" in opts else 0) | (TRACED if traced else 0)
        if "-i" in opts:
            flags |= ASKING
        if "-lcm" in opts:
            flags |= LAZY
        if "-gb" not in opts:
            flags |= SINGLE
            if "-cb" not in opts and "-lscb" not in opts:
                flags |= PLAIN
            if "-cb" in opts and "-lscb" not in opts:
                flags |= CHRONO
        if traced and "-gb" in opts and not {"-lcm", "-ecm", "--backtrack-possibilities-limit"} & set(opts) and "--restarts" in opts and opts[opts.index("--restarts") + 1] == "off":
            flags |= MINIMAL      # every retraction is a repair, and all choices are looked at
            if not {"-bl", "-max-approx-cost", "-sum-approx-cost", "-vsids-approx-cost"} & set(opts) and ("--chunk-level-penalty" not in opts or opts[opts.index("--chunk-level-penalty") + 1] in ("0", "0.01")):
                flags |= EXACT    # their costs are computed exactly
        name = "s%d" % self.count
        self.count += 1
        head = ["scn %s %d %d" % (name, n, flags), "opt " + " ".join(opts)]
        if traced:
            head.append("trace" + (" watches" if flags & WATCHED else ""))
        self.out.append((name, head + [x for x in lines if x] + ["delete"]))

    # ---- families ----
    def incremental(self, opts, nmax=6, traced=True, iuv=False):
        R = self.R
        n = R.randint(2, nmax)
        o = ["new %d 0" % R.choice([n, n, 0, 1])]
        if R.random() < .5:
            # clauses that keep the formula satisfiable for a while
            for c in self.planted(n, R.randint(0, 3 * n), min(3, n)):
                o.append("add " + " ".join(map(str, c)))
        else:
            o += [self.add(n) for _ in range(R.randint(0, 3 * n))]
        for _ in range(R.randint(3, 14)):
            x = R.random()
            if x < .45:
                o.append(self.add(n))
            elif x < .75:
                o.append("solve")
            elif x < .8:
                o.append("sync")
            elif x < .85:
                o.append("block %d" % n)
            elif x < .9:
                o.append("blockd %d" % n)
            elif x < .93:
                o.append("limit %d" % R.randint(0, 3))
            elif x < .96:
                o.append("prop\nautodecide")
            else:
                o.append("prop\ndecide %d" % self.lit(n))
        o.append("solve")
        self.scenario(n, opts, o, traced, iuv=iuv)

    def manual(self, opts, nmax=6, traced=True):
        R = self.R
        n = R.randint(2, nmax)
        o = ["new %d 0" % n] + [self.add(n) for _ in range(R.randint(0, 2 * n))]
        for _ in range(R.randint(4, 16)):
            x = R.random()
            if x < .25:
                o.append(self.add(n))
            elif x < .6:
                o.append("prop\ndecide %d" % self.lit(n))
            elif x < .75:
                o.append("prop\nautodecide")
            elif x < .85:
                o.append("solve")
            elif x < .9:
                o.append("sync")
            else:
                o.append("block %d" % n)
        o.append("solve")
        self.scenario(n, opts, o, traced)

    def phases(self, opts, nmax=7, traced=True):
        """few conflicts, many synchronizations: decisions follow the synchronized values, which are paid for"""
        R = self.R
        n = R.randint(3, nmax)
        o = ["new %d 0" % R.choice([n, n, 1])]
        if R.random() < .5:
            o.append("costs " + " ".join(str(R.choice([1, 1, 2, 3, 7])) for _ in range(R.randint(1, n))))
        o += ["add " + " ".join(map(str, c)) for c in self.planted(n, R.randint(0, 2 * n), min(3, n))]
        for _ in range(R.randint(5, 18)):
            x = R.random()
            if x < .2:
                o.append(self.add(n, (1, 2, 3, 3)))
            elif x < .45:
                o.append("solve")
            elif x < .6:
                o.append("sync")
            elif x < .75:
                o.append("solve\nsync\nblock %d" % n)
            elif x < .85:
                o.append("prop\nautodecide")
            else:
                o.append("prop\ndecide %d" % self.lit(n))
        o += ["solve", "sync"]
        self.scenario(n, opts + (["-stat"] if R.random() < .7 else []), o, traced)

    def interactive(self, opts, nmax=6, traced=True):
        """the user answers whenever the solver is about to decide"""
        R = self.R
        n = R.randint(3, nmax)
        o = ["stopunsat"] * (R.random() < .5) + ["new %d 0" % n]
        o += ["add " + " ".join(map(str, c)) for c in self.planted(n, R.randint(0, 2 * n), min(3, n))]
        asm = []
        for _ in range(R.randint(1, 4)):
            for _ in range(R.randint(1, 6)):
                x = R.random()
                if x < .3:
                    o.append("type DECIDE %d" % self.lit(n))
                elif x < .4:
                    o.append("type DECIDE")
                elif x < .5:
                    o.append("type")
                elif x < .7:
                    o.append("type LEARN " + " ".join(map(str, self.clause(n, (1, 2, 2, 3, 3)))))
                elif x < .8 and "-gb" in opts:
                    l = self.lit(n)
                    asm.append(l)
                    o.append("type ASSUME %d" % l)
                elif x < .88 and "-gb" in opts:
                    o.append("type FORGET %d" % (R.choice(asm) if asm and R.random() < .7 else self.lit(n)))
                elif x < .91:
                    o.append("type " + R.choice(["PRINT trail", "PRINT trail-simple", "PRINT clause-set", "PRINT watch-lists", "PRINT nothing", "HELP"]))
                elif x < .97:
                    o.append("type " + R.choice(["decide 1", "DECIDE 1 2", "ASSUME", "FORGET 1 2", "NOTHING", "DELETE_CLAUSE", "DELETE_CLAUSE 1 2", "DECIDED 1",
                                                  "DECIDE %d" % (n + 1 + R.randint(0, 3)), "DECIDE x", "DECIDE 0", "DECIDE 1x", "ASSUME -%d" % (n + 1), "ASSUME 99999999999", "FORGET -",
                                                  "FORGET %d" % (2 * n), "LEARN 1 a", "LEARN 0", "LEARN 1 2x", "LEARN 1 99999999999 2", "DELETE_CLAUSE x", "DELETE_CLAUSE -1", "DELETE_CLAUSE 999999"]))
            o.append(R.choice(["solve", "solve", "solve", "limit 2"]))
            if R.random() < .4:
                o.append(R.choice([self.add(n), "block %d" % n, "sync"]))
        o.append("solve")
        self.scenario(n, opts + ["-i"], o, traced)

    def steered(self, opts, nmax=7, traced=True):
        """decisions and assumptions mixed"""
        R = self.R
        n = R.randint(3, nmax)
        o = ["new %d 0" % n] + [self.add(n) for _ in range(R.randint(0, 2 * n))]
        pool = []
        for _ in range(R.randint(6, 20)):
            x = R.random()
            if x < .15:
                o.append(self.add(n))
            elif x < .4:
                o.append("prop\ndecide %d" % self.lit(n))
            elif x < .48:
                o.append("prop\nautodecide")
            elif x < .7:
                pool.append(self.lit(n))
                o.append("assume %d" % pool[-1])
            elif x < .8:
                o.append("forget %d" % (R.choice(pool) if pool and R.random() < .7 else self.lit(n)))
            elif x < .82:
                o.append("forgetall")
            elif x < .93:
                o.append("solve")
            elif x < .97:
                o.append("block %d" % n)
            else:
                o.append("limit %d" % R.randint(0, 2))
        o.append("solve")
        self.scenario(n, opts, o, traced)

    def stacked(self, opts, nmax=8, traced=True, proof=False):
        """many decisions, then clauses over the decided literals: they imply decisions, clash with them, or imply more"""
        R = self.R
        n = R.randint(4, nmax)
        o = ["new %d 0" % n] + [self.add(n, (2, 3, 3, 4)) for _ in range(R.randint(0, n // 2))]
        took = {}

        def decide():
            v = R.randint(1, n)
            took.setdefault(v, v if R.random() < .5 else -v)
            o.append("prop\ndecide %d" % took[v])
        for _ in range(R.randint(2, n)):
            decide()
        asm = "-gb" in opts and R.random() < .3 and not proof
        for _ in range(R.randint(6, 18)):
            x = R.random()
            if x < .6 and len(took) > 1:
                vs = R.sample(sorted(took), min(len(took), R.choice((2, 2, 3, 3, 4))))
                c = [-took[v] for v in vs]
                if x < .35:
                    c[0] = -c[0]
                elif x < .45:
                    w = R.randint(1, n)
                    if w not in vs:
                        c[0] = R.choice((w, -w))
                R.shuffle(c)
                o.append("add " + " ".join(map(str, c)))
                if R.random() < .6:
                    o.append("prop")
                if x >= .45 and R.random() < .5:
                    took.pop(R.choice(vs))
            elif x < .72:
                decide()
            elif x < .76:
                o.append("prop\nautodecide")
            elif x < .8:
                o.append(self.add(n))
            elif x < .84:
                o.append("sync")
            elif x < .88:
                o.append("limit %d" % R.randint(0, 2))
            elif x < .93 and asm:
                o.append("assume %d" % (R.choice(sorted(took.values())) if took and R.random() < .6 else self.lit(n)))
            elif x < .95 and asm:
                o.append("forgetall" if R.random() < .3 else "forget %d" % self.lit(n))
            else:
                o.append(R.choice(("solve", "block %d" % n)))
        if proof:
            o = ["stopunsat"] + o + [self.add(n, (2, 3, 3)) for _ in range(R.randint(0, 3 * n))] + ["solve", "proof", "printproof"]
            opts = opts + ["-bp"]
        o.append("solve")
        self.scenario(n, opts, o, traced)

    def priced(self, opts, nmax=8, traced=True):
        """variables of different cost, decisions and what they imply, then clauses clashing with them, several at a time"""
        R = self.R
        n = R.randint(4, nmax)
        o = ["new %d 0" % n] + [self.add(n, (2, 2, 3, 3)) for _ in range(R.randint(0, n))]
        dear = R.choice(((1, 1, 2, 3, 7), (0, 1, 2), (0, 0, 1), (1, 2, 4, 8), (5,)))
        if R.random() < .8:
            o.insert(R.randint(1, len(o)), "costs " + " ".join(str(R.choice(dear)) for _ in range(R.randint(1, n))))
        asm = "-gb" in opts and R.random() < .25
        for _ in range(R.randint(1, 4)):
            a = [0] + [v if R.random() < .5 else -v for v in range(1, n + 1)]
            vs = R.sample(range(1, n + 1), R.randint(2, n))
            for v in vs:
                if asm and R.random() < .2:
                    o.append("assume %d" % a[v])
                else:
                    o.append(R.choice(("prop\ndecide %d" % a[v], "prop\ndecide %d" % a[v], "prop\nautodecide")))
            if R.random() < .5:
                o.append("prop")
            for _ in range(R.randint(1, 5)):
                ws = R.sample(vs, min(len(vs), R.choice((2, 2, 3, 3, 4))))
                c = [-a[w] for w in ws]
                if R.random() < .1:
                    c[0] = -c[0]
                R.shuffle(c)
                o.append("add " + " ".join(map(str, c)))
            o.append(R.choice(("prop", "prop", "solve", "block %d" % n, "forgetall" if asm else "prop")))
        o.append("solve")
        self.scenario(n, opts, o, traced)

    def refuted(self, opts, nmax=8, traced=True, proof=False):
        """the clauses become unsatisfiable while decisions are in the trail, and the solver is used further"""
        R = self.R
        n = R.randint(3, nmax)
        gb = "-gb" in opts
        o = ["new %d 0" % n] + [self.add(n, (2, 3, 3, 3, 4)) for _ in range(R.randint(0, 3 * n))]
        for _ in range(R.randint(0, 4)):
            o.append(R.choice(("solve", "prop\nautodecide", "prop\ndecide %d" % self.lit(n), self.add(n), "limit %d" % R.randint(0, 1))))
        if gb and not proof and R.random() < .3:
            o.append("assume %d" % self.lit(n))
        v = R.randint(1, n)
        how = R.random()
        if how < .6:
            o += ["add %d" % v, R.choice(("solve", "prop", "sync")), "add %d" % -v]
        elif how < .8:
            o += ["add %d" % R.choice((v, -v)), "solve", "add %d" % v, "add %d" % -v]
        else:
            w = R.choice([x for x in range(1, n + 1) if x != v])
            o += ["add %d %d" % (x, y) for x in (v, -v) for y in (w, -w)]
        for _ in range(R.randint(3, 14)):
            x = R.random()
            if x < .3:
                o.append("add %d" % self.lit(n))
            elif x < .8:
                o.append(self.add(n, (1, 2, 2, 3, 3, 4)))
            elif x < .9:
                o.append(R.choice(("solve", "limit %d" % R.randint(0, 2))))
            elif gb and not proof:
                l = self.lit(n)
                o.append(R.choice(("assume %d" % l, "forget %d" % l, "forgetall", "solve")))
        o.append("solve")
        if proof:
            o += ["proof", "printproof"]
            opts = opts + ["-bp"]
        self.scenario(n, opts, o, traced)

    def limited(self, opts, nmax=6, traced=True):
        R = self.R
        n = R.randint(3, nmax)
        o = ["new %d 0" % n] + [self.add(n, (2, 3, 3, 3)) for _ in range(R.randint(n, 4 * n))]
        for _ in range(R.randint(3, 10)):
            x = R.random()
            if x < .25:
                o.append(self.add(n, (2, 2, 3, 3)))
            elif x < .8:
                o.append("limit %d" % R.choice([0, 1, 1, 1, 2, 3]))
            elif x < .9:
                o.append("block %d" % n)
            else:
                o.append("solve")
        o.append("solve")
        self.scenario(n, opts, o, traced)

    def assumptions(self, opts, nmax=6, traced=True, core=True):
        R = self.R
        n = R.randint(2, nmax)
        o = ["new %d 0" % n] + [self.add(n) for _ in range(R.randint(0, 3 * n))]
        pool = []
        for _ in range(R.randint(4, 16)):
            x = R.random()
            if x < .2:
                o.append(self.add(n))
            elif x < .5:
                l = self.lit(n)
                pool.append(l)
                o.append("assume %d" % l)
            elif x < .6:
                o.append("forget %d" % (R.choice(pool) if pool and R.random() < .7 else self.lit(n)))
            elif x < .65:
                o.append("forgetall")
            elif x < .95:
                o.append("solve")
                if core:
                    o.append("core")
            elif x < .97:
                o.append("sync")
            else:
                o.append("limit %d" % R.randint(0, 2))
        o.append("solve")
        if core:
            o.append("core")
        if R.random() < .5:
            o += ["forgetall", "solve"]
        self.scenario(n, opts, o, traced)

    def enumerate(self, opts, nmax=5, traced=True):
        R = self.R
        n = R.randint(2, nmax)
        o = ["new %d 0" % n] + [self.add(n, (1, 2, 3, 3, 3)) for _ in range(R.randint(0, 2 * n))]
        o.append("enum %d %d%s" % (2 ** n + 1, n, R.choice(["", " sync"])))
        self.scenario(n, opts, o, traced)

    def formula(self, opts, nmin, nmax, ratio=(3.5, 4.8), traced=True, big=True, blocks=0):
        """one larger random 3-SAT formula, solved and then constrained further"""
        R = self.R
        n = R.randint(nmin, nmax)
        m = int(n * R.uniform(*ratio))
        o = ["stopunsat", "new %d 0" % R.choice([n, 0])]
        cs = self.planted(n, m) if R.random() < .4 else [self.clause(n, (3, 3, 3, 3, 2)) for _ in range(m)]
        o += ["add " + " ".join(map(str, c)) for c in cs]
        o.append("solve")
        for _ in range(blocks):
            o.append(R.choice(["block %d" % n, "blockd %d" % n, self.add(n, (1, 2, 3))]))
            o.append("solve")
        self.scenario(n, opts, o, traced, big=big)

    def pigeons(self, opts, h, traced=True):
        v = lambda p, q: p * h + q + 1
        cs = [[v(p, q) for q in range(h)] for p in range(h + 1)]
        cs += [[-v(a, q), -v(b, q)] for q in range(h) for a in range(h + 1) for b in range(a)]
        n = (h + 1) * h
        perm = list(range(1, n + 1))
        self.R.shuffle(perm)
        self.R.shuffle(cs)
        o = ["stopunsat", "new %d 0" % n]
        o += ["add " + " ".join(str(perm[abs(l) - 1] * (1 if l > 0 else -1)) for l in c) for c in cs]
        self.scenario(n, opts, o + ["solve"], traced, big=True)

    # ---- proofs, variables, agreement, specification behaviours ----
    def proofs(self, opts, nmax=5, traced=False):
        """unsatisfiable (mostly), in one or several calls, with the proof checked and printed"""
        R = self.R
        n = R.randint(2, nmax)
        o = ["stopunsat", "new %d 0" % R.choice([n, 0])]
        for _ in range(R.randint(1, 3)):
            o += [self.add(n, R.choice([(1, 2, 2, 3, 3, 3), (2, 2, 3), (3,), (2, 3, 3, 4)])) for _ in range(R.randint(n, 4 * n))]
            o.append(R.choice(["solve", "solve", "limit 1", "prop\nautodecide"]))
            if R.random() < .5:
                o.append("block %d" % n)
        o += ["solve", "proof", "printproof"]
        self.scenario(n, opts + ["-bp"], o, traced)

    def bigproofs(self, opts, nmin=8, nmax=14, traced=False):
        R = self.R
        n = R.randint(nmin, nmax)
        o = ["stopunsat", "new %d 0" % n]
        o += ["add " + " ".join(map(str, self.clause(n, (3, 3, 3, 2)))) for _ in range(int(n * R.uniform(4.5, 6)))]
        self.scenario(n, opts + ["-bp"], o + ["solve", "proof"], traced, big=True)

    def deep(self, opts, nmax=7, traced=False):
        """the search takes place above thousands of decisions"""
        R = self.R
        n = R.randint(4, nmax)
        o = ["new %d 0" % n]
        o += ["add " + " ".join(map(str, c)) for c in self.planted(n, R.randint(0, 3 * n), min(3, n))]
        o.append("ballast %d" % R.choice([4020, 4026, 4029, 4031, 4032, 4033, 4040, 8060, 8070]))
        for _ in range(R.randint(4, 12)):
            x = R.random()
            if x < .25:
                o.append(self.add(n, (2, 3, 3)))
            elif x < .5:
                o.append("prop\ndecide %d" % self.lit(n))
            elif x < .6:
                o.append("prop\nautodecide")
            elif x < .75:
                o.append("solve")
            elif "-gb" in opts:
                o.append(R.choice(["assume %d", "assume %d", "forget %d"]) % self.lit(n))
        o.append("solve")
        self.scenario(n, opts, o, False)

    def variables(self, opts, nmax=8, traced=True):
        R = self.R
        n = nmax
        have = R.randint(0, 3)
        o = ["new %d 0" % have]
        for _ in range(R.randint(5, 16)):
            x = R.random()
            if x < .3 and have < n:
                o.append("newvar")
                have += 1
            elif x < .7:
                top = min(n, have + R.choice([0, 0, 0, 1, 2]))
                if top:
                    c = self.clause(top, (1, 2, 2, 3))
                    have = max([have] + [abs(l) for l in c])
                    o.append(R.choice(["add ", "push "]) + " ".join(map(str, c)))
            elif x < .85:
                o.append("solve")
            elif x < .92 and have:
                o.append("prop\ndecide %d" % self.lit(have))
            elif have and "-gb" in opts:
                o.append("assume %d" % self.lit(have))
        o.append("solve")
        self.scenario(n, opts, o, traced)

    def bigvariables(self, opts, traced=False):
        """variables far apart, tables growing while solving"""
        R = self.R
        n = R.choice([40, 100, 300])
        o = ["new 0 0"]
        top = 1
        for _ in range(R.randint(6, 20)):
            top = min(n, top + R.choice([1, 2, 5, 30, 60]))
            o.append("add " + " ".join(str(R.choice([-1, 1]) * v) for v in {R.randint(1, top), top, R.randint(1, top)}))
            if R.random() < .3:
                o.append("newvar")
                top += 1
                n = max(n, top)
            if R.random() < .4:
                o.append("solve")
        o.append("solve")
        self.scenario(max(n, top), opts, o, traced, big=True)

    def longrun(self, opts, n=8, calls=40, traced=True):
        """many calls on one solver: thresholds of simplification, deletion and restarts are crossed"""
        R = self.R
        a = [R.choice([-1, 1]) * v for v in range(1, n + 1)]
        o = ["new %d 0" % n]
        for _ in range(calls):
            x = R.random()
            if x < .6:
                c = self.clause(n, (2, 3, 3, 4, 4))
                if R.random() < .85 and not any(l in a for l in c):     # mostly keep it satisfiable
                    c[R.randrange(len(c))] *= -1
                    if not any(l in a for l in c):
                        c.append(R.choice(a))
                        c = list(dict.fromkeys(c))
                o.append(R.choice(["add ", "push "]) + " ".join(map(str, c)))
            elif x < .68:
                o.append("add %d" % R.choice(a))
            elif x < .9:
                o.append("solve")
            elif x < .95:
                o.append("limit %d" % R.randint(0, 2))
            else:
                o.append("sync")
        o.append("solve")
        self.scenario(n, opts, o, traced)

    def hard(self, opts, n=9, traced=True):
        """small but conflict-rich: many conflicts, learned clauses, restarts"""
        R = self.R
        o = ["stopunsat", "new %d 0" % n]
        o += ["add " + " ".join(map(str, self.clause(n, (3, 3, 3, 4)))) for _ in range(int(n * R.uniform(3.6, 4.6)))]
        o.append("solve")
        for _ in range(3):
            o += ["block %d" % n, "solve"]
        self.scenario(n, opts, o, traced)

    def behaviour(self, script, n, opts, traced=True, core=False):
        """a behaviour generated from the specification"""
        o = ["new %d 0" % n]
        for op in script:
            k, a = op["o"], op["a"]
            if k == "prop":
                o.append("prop")
            elif k == "decide":
                o.append("prop\ndecide %d" % a[0])
            elif k == "block":
                o += (["solve"] if o[-1] != "solve" else []) + ["block %d" % n]
            else:
                o.append(" ".join([k] + [str(x) for x in a]))
                if k == "solve" and core:
                    o.append("core")
        o.append("solve")
        if core:
            o.append("core")
        self.scenario(n, opts, o, traced)

    def hardlimit(self, opts, n=9, traced=True):
        R = self.R
        o = ["stopunsat", "new %d 0" % n]
        o += ["add " + " ".join(map(str, self.clause(n, (3, 3, 3, 4)))) for _ in range(int(n * R.uniform(4, 5)))]
        for _ in range(R.randint(1, 5)):
            o.append("limit %d" % R.choice([0, 1, 2, 4, 8]))
        self.scenario(n, opts, o + ["solve"], traced)

    def pigeonproofs(self, opts, h):
        self.pigeons(opts + ["-bp"], h, traced=False)
        name, ls = self.out[-1]
        self.out[-1] = (name, ls[:-1] + ["proof", "delete"])
