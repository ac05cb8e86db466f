"""The checks of the solver properties: what is run and which guards decide."""
import random
import gen, tlc
from gen import NCB, CB, LSCB, GB, BASE, GBX, MISC, EVERY

ALWAYS = ["crash", "unknown-variable"]
ANSWERS = ["sat-wrong", "unsat-wrong", "model-inconsistent", "model-partial", "no-answer", "assignment-inconsistent"]

# property -> guards of Solver.tla that decide it
WATCH = {
    "P01": ["sat-wrong", "model-inconsistent", "model-partial", "assignment-inconsistent", "no-answer"],
    "P02": ["unsat-wrong", "models-missed"],
    "P03": ANSWERS + ["answers-differ"],
    "P04": ["learned-not-implied", "shrunk-not-implied"],
    "P05": ["stored-not-implied", "constraints-lost", "reason-deleted", "delete-unknown", "shrink-unknown", "shrunk-not-implied", "id-reused",
            "clause-lost"],
    "P06": ["assigned-twice", "implied-without-reason", "unjustified-literal", "reason-of-unassigned", "reason-deleted", "decision-differs"],
    "P07": ["missed-propagation", "unpropagated-literal"],
    "P08": ["root-level-wrong", "decision-level-wrong", "implied-level-wrong"],
    "P09": ["undone-without-cause", "unassign-unassigned", "unjustified-literal", "trail-differs"],
    "P10": ["root-not-implied", "root-undone", "root-level-wrong"],
    "P11": ["clause-lost", "clause-changed", "constraints-lost", "missed-propagation"] + ANSWERS,
    "P12": ["model-repeated", "models-missed"] + ANSWERS,
    "P13": ["assumption-violated", "assume-contradictory", "assume-refused", "assume-not-assigned", "forget-wrong", "forget-refused", "assumption-undone",
            "lock-unassigned"] + ANSWERS,
    "P14": ["core-not-assumed", "core-satisfiable"] + ANSWERS,
    "P15": ["gave-up-early", "limit-exceeded"] + ANSWERS,
    "P16": ["proof-rejected", "proof-step-wrong", "proof-leaf-wrong", "proof-incomplete"],
    "P17": ["trail-differs", "assigned-twice", "unassign-unassigned", "propagated-unassigned", "unpropagated-literal", "delete-unknown", "id-reused",
            "shrink-unknown", "reason-of-unassigned", "implied-without-reason", "lock-unassigned", "constraints-lost", "decision-differs", "level-of-unassigned", "level-notice-wrong"],
    "P29": ["order-wrong"],
    "P31": ["phase-wrong", "sync-cost-wrong"],
    "P33": ["repair-not-minimal", "repair-not-cheapest"],
    "P30": ["watch-broken", "watch-unknown"],
    "P27": ["variable-count-wrong"] + ANSWERS,
    "P32": ["not-asked", "command-wrong", "clause-lost", "learned-not-implied", "decision-differs", "trail-differs", "undone-without-cause", "assumption-violated", "assume-contradictory", "assume-refused",
            "assume-not-assigned", "forget-wrong", "forget-refused", "assumption-undone"] + ANSWERS,
}

# invariants of the design model behind each property
DESIGN = {"P01": ["SatRight"], "P02": ["UnsatRight"], "P03": ["SatRight", "UnsatRight"], "P04": ["StoredFollow"], "P05": ["Equivalent", "ReasonsStored"],
          "P06": ["Consistent", "Justified", "ReasonsStored"], "P07": ["SatRight"], "P08": ["Justified", "RootsHold"], "P09": ["Justified"],
          "P10": ["RootsHold"], "P11": ["Equivalent", "SatRight", "UnsatRight"], "P12": ["SatRight", "UnsatRight"],
          "P13": ["AssumptionsHold", "SatRight", "UnsatRight"], "P14": ["UnsatRight"], "P15": ["SatRight", "UnsatRight"], "P16": ["StoredFollow", "UnsatRight"],
          "P17": ["ReasonsStored", "Consistent"], "P27": ["SatRight"], "P29": ["Justified"], "P30": ["Justified"], "P31": ["Consistent"], "P33": ["Justified"],
          "P32": ["SatRight", "UnsatRight", "AssumptionsHold"]}


def plan(pid):
    """[(family, scenarios in the quick tier, option sets, keyword arguments)]"""
    gbx = [GB] + GBX
    chrono = [CB, LSCB, LSCB] + [o for o in MISC if "-cb" in o or "-lscb" in o]
    RISKY = [GB, GB, GB + ["-ecm"]] + GBX
    P = {
        "P01": [("incremental", 3000, EVERY, dict(nmax=8, traced=False)), ("phases", 1500, EVERY, dict(traced=False)),
                ("incremental", 900, EVERY, {}), ("incremental", 300, BASE, dict(traced=False)), ("manual", 500, EVERY, {}), ("longrun", 100, BASE + MISC, {}),
                ("incremental", 250, [o + ["-iuv"] for o in BASE], {}), ("hard", 40, EVERY, {}), ("formula", 50, EVERY, dict(nmin=15, nmax=40, blocks=3)),
                ("tlc-inc", 300, BASE, {}), ("tlc-all-inc", 400, BASE, {}), ("deep", 120, BASE + gbx, {})],
        "P02": [("incremental", 3000, EVERY, dict(nmax=8, traced=False)), ("manual", 1500, EVERY, dict(traced=False)),
                ("incremental", 900, EVERY, {}), ("incremental", 400, BASE, dict(traced=False)), ("hard", 80, EVERY, {}), ("limited", 200, BASE, {}),
                ("enumerate", 300, EVERY, {}), ("longrun", 100, BASE + MISC, {}), ("assumptions", 400, gbx, dict(core=False)), ("formula", 40, EVERY, dict(nmin=15, nmax=30)),
                ("tlc-inc", 200, BASE, {}), ("tlc-all-inc", 400, BASE, {}),
                ("steered", 1200, gbx, dict(traced=False)), ("stacked", 900, gbx, dict(traced=False))],
        "P03": [("refuted", 2000, EVERY, dict(traced=False)), ("incremental", 3000, EVERY, dict(nmax=8, traced=False)), ("assumptions", 2500, gbx, dict(core=False, nmax=7, traced=False)), ("manual", 1500, EVERY, dict(traced=False)),
                ("agree", 40, EVERY, dict(nmin=6, nmax=9)), ("agree", 14, EVERY, dict(nmin=20, nmax=60)), ("incremental", 700, EVERY, {}),
                ("incremental", 300, EVERY, dict(traced=False)), ("pigeons", 6, BASE + GBX, dict(h=4, traced=False)), ("longrun", 100, EVERY, {}), ("tlc-all-inc", 300, BASE, {}), ("deep", 120, BASE + gbx, {}),
                ("steered", 1200, gbx, dict(traced=False)), ("stacked", 900, gbx, dict(traced=False)),
                ("interactive", 600, EVERY, dict(traced=False)), ("priced", 1000, gbx, dict(traced=False))],
        "P04": [("incremental", 600, EVERY, {}), ("limited", 300, EVERY, {}), ("hard", 150, EVERY, {}), ("longrun", 80, EVERY, {}), ("assumptions", 400, gbx, dict(core=False)),
                ("formula", 40, EVERY, dict(nmin=12, nmax=30, blocks=2)), ("pigeons", 4, BASE, dict(h=3)), ("tlc-all-inc", 300, BASE, {}),
                ("steered", 300, gbx, {}), ("stacked", 250, gbx, {}), ("stacked", 200, chrono, {}), ("interactive", 250, EVERY, {})],
        "P05": [("incremental", 500, EVERY, {}), ("longrun", 350, EVERY, {}), ("hard", 120, EVERY, {}), ("enumerate", 250, EVERY, {}), ("assumptions", 250, gbx, dict(core=False)),
                ("formula", 30, EVERY, dict(nmin=12, nmax=30, blocks=2)), ("tlc-all-inc", 300, BASE, {}),
                ("steered", 300, gbx, {}), ("stacked", 250, gbx, {}), ("stacked", 300, chrono, {}), ("interactive", 250, EVERY, {}), ("priced", 300, gbx, {})],
        "P06": [("incremental", 600, EVERY, {}), ("manual", 400, EVERY, {}), ("limited", 200, EVERY, {}), ("longrun", 80, EVERY, {}), ("hard", 60, EVERY, {}),
                ("assumptions", 400, gbx, dict(core=False)), ("formula", 40, EVERY, dict(nmin=12, nmax=40, blocks=3)), ("tlc-all-man", 400, BASE, {}), ("tlc-man", 150, BASE, {}),
                ("steered", 300, gbx, {}), ("stacked", 250, gbx, {}), ("stacked", 500, chrono, {}), ("interactive", 250, EVERY, {}), ("priced", 300, gbx, {})],
        "P07": [("manual", 4000, EVERY, dict(nmax=8, traced=False)), ("stacked", 2500, gbx, dict(traced=False)), ("steered", 1500, gbx, dict(traced=False)),
                ("incremental", 600, EVERY, {}), ("manual", 500, EVERY, {}), ("longrun", 150, EVERY, {}), ("hard", 60, EVERY, {}), ("assumptions", 300, gbx, dict(core=False)),
                ("formula", 40, EVERY, dict(nmin=12, nmax=40, blocks=3)), ("tlc-all-man", 400, BASE, {}), ("tlc-man", 150, BASE, {}), ("deep", 120, BASE + gbx, {}),
                ("steered", 300, gbx, {}), ("stacked", 250, gbx, {}), ("stacked", 1500, chrono, {}), ("interactive", 250, EVERY, {}), ("priced", 2500, RISKY, {})],
        "P08": [("incremental", 600, EVERY, {}), ("manual", 500, EVERY, {}), ("longrun", 80, EVERY, {}), ("hard", 60, EVERY, {}), ("assumptions", 300, gbx, dict(core=False)),
                ("formula", 40, EVERY, dict(nmin=12, nmax=40, blocks=3)), ("tlc-all-man", 400, BASE, {}), ("tlc-man", 150, BASE, {}),
                ("steered", 300, gbx, {}), ("stacked", 250, gbx, {}), ("stacked", 500, chrono, {}), ("interactive", 250, EVERY, {}), ("priced", 300, gbx, {})],
        "P09": [("incremental", 600, EVERY, {}), ("manual", 500, EVERY, {}), ("limited", 200, EVERY, {}), ("longrun", 80, EVERY, {}), ("assumptions", 300, gbx, dict(core=False)),
                ("formula", 60, EVERY, dict(nmin=12, nmax=40, blocks=4)), ("tlc-all-man", 400, BASE, {}), ("tlc-man", 150, BASE, {}),
                ("steered", 300, gbx, {}), ("stacked", 250, gbx, {}), ("stacked", 500, chrono, {}), ("interactive", 250, EVERY, {}), ("priced", 300, gbx, {})],
        "P10": [("incremental", 2500, EVERY, dict(traced=False)), ("manual", 1500, EVERY, dict(traced=False)),
                ("incremental", 600, EVERY, {}), ("manual", 400, EVERY, {}), ("longrun", 200, EVERY, {}), ("assumptions", 500, gbx, dict(core=False)),
                ("formula", 30, EVERY, dict(nmin=12, nmax=30, blocks=4)), ("tlc-all-inc", 300, BASE, {}), ("tlc-asm", 200, [GB], {}), ("deep", 120, BASE + gbx, {}),
                ("steered", 300, gbx, {}), ("stacked", 250, gbx, {}), ("stacked", 400, chrono, {}), ("interactive", 250, EVERY, {}), ("priced", 200, gbx, {})],
        "P11": [("incremental", 3000, EVERY, dict(nmax=8, traced=False)), ("longrun", 800, EVERY, dict(traced=False)),
                ("incremental", 900, EVERY, {}), ("incremental", 400, BASE, dict(traced=False)), ("manual", 400, EVERY, {}), ("longrun", 200, EVERY, {}),
                ("stacked", 600, EVERY, {}), ("refuted", 300, EVERY, {}), ("tlc-all-inc", 700, BASE, {}), ("tlc-inc", 250, BASE, {})],
        "P12": [("enumerate", 1500, EVERY, dict(nmax=6, traced=False)),
                ("enumerate", 900, EVERY, {}), ("enumerate", 500, EVERY, dict(traced=False)), ("enumerate", 60, BASE, dict(nmax=6)), ("tlc-all-enum", 400, BASE, {}), ("tlc-enum", 150, BASE, {})],
        "P13": [("assumptions", 5000, gbx, dict(core=False, nmax=7, traced=False)),
                ("assumptions", 1600, gbx, dict(core=False)), ("assumptions", 500, gbx, dict(core=False, traced=False)), ("tlc-all-asm", 600, [GB], {}), ("tlc-asm", 300, [GB], {}), ("deep", 200, gbx, {}),
                ("steered", 1200, gbx, dict(traced=False)), ("stacked", 900, gbx, dict(traced=False)),
                ("steered", 400, gbx, {})],
        "P14": [("assumptions", 5000, gbx, dict(nmax=7, traced=False)),
                ("assumptions", 1600, gbx, {}), ("assumptions", 600, gbx, dict(traced=False)), ("tlc-all-asm", 600, [GB], dict(core=True)), ("tlc-asm", 300, [GB], dict(core=True)),
                ("steered", 1200, gbx, dict(traced=False)), ("stacked", 900, gbx, dict(traced=False))],
        "P15": [("limited", 3000, EVERY, dict(nmax=8, traced=False)),
                ("limited", 1500, EVERY, {}), ("limited", 500, EVERY, dict(traced=False)), ("longrun", 80, BASE, {}), ("hardlimit", 120, EVERY, {}), ("tlc-all-inc", 400, BASE, {})],
        "P16": [("proofs", 1200, EVERYPROOF, {}), ("stacked", 700, EVERYPROOF, dict(nmax=6, traced=False, proof=True)), ("refuted", 600, EVERYPROOF, dict(nmax=6, traced=False, proof=True)), ("proofs", 300, EVERYPROOF, dict(traced=True)), ("bigproofs", 60, EVERYPROOF, {}), ("pigeonproofs", 4, BASE, dict(h=3))],
        "P17": [("incremental", 600, EVERY, {}), ("manual", 400, EVERY, {}), ("limited", 200, EVERY, {}), ("longrun", 150, EVERY, {}), ("assumptions", 400, gbx, dict(core=False)),
                ("formula", 40, EVERY, dict(nmin=12, nmax=40, blocks=3)), ("tlc-all-man", 400, BASE, {}), ("tlc-all-asm", 300, [GB], {}),
                ("steered", 300, gbx, {}), ("stacked", 250, gbx, {}), ("stacked", 400, chrono, {}), ("interactive", 250, EVERY, {}), ("priced", 300, gbx, {})],
        "P29": [("incremental", 600, EVERY, {}), ("manual", 500, EVERY, {}), ("limited", 200, EVERY, {}), ("longrun", 100, EVERY, {}), ("hard", 60, EVERY, {}),
                ("assumptions", 400, gbx, dict(core=False)), ("formula", 60, EVERY, dict(nmin=12, nmax=40, blocks=4)), ("tlc-all-man", 400, BASE, {}), ("tlc-man", 150, BASE, {}),
                ("steered", 300, gbx, {}), ("stacked", 250, gbx, {}), ("stacked", 500, chrono, {}), ("interactive", 250, EVERY, {}), ("priced", 300, gbx, {})],
        "P30": [("incremental", 600, EVERY, dict(traced="watches")), ("manual", 500, EVERY, dict(traced="watches")), ("limited", 200, EVERY, dict(traced="watches")), ("longrun", 150, EVERY, dict(traced="watches")), ("hard", 80, EVERY, dict(traced="watches")),
                ("assumptions", 400, gbx, dict(core=False, traced="watches")), ("formula", 40, EVERY, dict(nmin=12, nmax=40, blocks=4, traced="watches")), ("tlc-all-man", 300, BASE, dict(traced="watches")), ("tlc-man", 150, BASE, dict(traced="watches")),
                ("steered", 200, gbx, dict(traced="watches")), ("stacked", 200, gbx, dict(traced="watches")), ("stacked", 400, chrono, dict(traced="watches")), ("interactive", 200, EVERY, dict(traced="watches")), ("priced", 300, gbx, dict(traced="watches"))],
        "P31": [("phases", 1200, EVERY, {}), ("incremental", 400, EVERY, {}), ("manual", 300, EVERY, {}), ("enumerate", 400, EVERY, {}), ("longrun", 60, EVERY, {}),
                ("assumptions", 200, gbx, dict(core=False)), ("stacked", 500, EVERY, {}), ("stacked", 300, gbx, {}), ("tlc-all-man", 300, BASE, {})],
        "P33": [("priced", 2000, REPAIRS, {}), ("stacked", 600, REPAIRS, {}), ("steered", 400, REPAIRS, {}), ("manual", 500, REPAIRS, {}), ("incremental", 400, REPAIRS, {}),
                ("assumptions", 200, REPAIRS, dict(core=False)), ("enumerate", 200, REPAIRS, {}), ("longrun", 60, REPAIRS, {}), ("tlc-all-man", 300, REPAIRS, {})],
        "P27": [("variables", 2000, EVERY, dict(traced=False)),
                ("variables", 1000, EVERY, {}), ("variables", 400, BASE, dict(traced=False)), ("bigvariables", 150, EVERY, {}), ("incremental", 200, EVERY, {})],
        "P32": [("interactive", 3000, EVERY, dict(nmax=7, traced=False)), ("interactive", 2000, gbx, dict(traced=False)), ("interactive", 900, EVERY, {}), ("interactive", 600, gbx, {}),
                ("steered", 300, gbx, {})],
    }
    return P[pid]


# settings under which every retraction is a repair
REPAIRS = [GB + ["--restarts", "off"] + o for o in ([], [], [], [], ["--chunk-level-penalty", "0"], ["--chunk-level-penalty", "0"], ["-bl"], ["-max-approx-cost"], ["-sum-approx-cost"],
                                                     ["-vsids-approx-cost"], ["--chunk-level-penalty", "2"], ["--delete-clauses", "off"])]
# lazy chunk merging builds no proof when chunks are merged (documented in KNOWN-ISSUES.md)
EVERYPROOF = [o for o in EVERY if "-lcm" not in o]
_cache = {}


def prefetch(entry, seed, deep):
    if entry[0].startswith("tlc-"):
        behaviours(entry[0].rsplit("-", 1)[1], entry[0].startswith("tlc-all-"), 1, seed, deep)


def behaviours(family, exhaustive, count, seed, deep, pick=0):
    key = (family, exhaustive, None if exhaustive else seed, deep)
    if key not in _cache:
        c = {"Family": '"%s"' % family}
        if exhaustive:
            c.update(N="2", Depth="4", MaxSize="2", Twins="FALSE")
            s, g, n = tlc.generate("ApiGen", c, 0)
            s.sort(key=str)
        else:
            c.update(N="4", Depth="11" if not deep else "16", MaxSize="3", Twins="TRUE")
            s, g, n = tlc.generate("ApiGen", c, 40, num=300 if not deep else 3000, seed=seed)
            n = len(s)
        _cache[key] = (s, n)
    s, n = _cache[key]
    R = random.Random(pick)
    return (R.sample(s, count) if count < len(s) else s), n


def scenarios(entry, factor, seed, deep, gseed=None):
    """-> list of (name, lines), states of the generator specification"""
    fam, count, opts, kw = entry
    g = gen.Gen(seed)
    count = max(1, int(count * factor))
    states = 0
    if fam.startswith("tlc-"):
        ex = fam.startswith("tlc-all-")
        f = fam.rsplit("-", 1)[1]
        scripts, states = behaviours(f, ex, count, seed if gseed is None else gseed, deep, seed)
        for s in scripts:
            g.behaviour(s, 2 if ex else 4, g.R.choice(opts), **kw)
    elif fam == "agree":
        for _ in range(count):
            n, k = g.R.randint(kw["nmin"], kw["nmax"]), g.R.randrange(1 << 60)
            for o in opts:
                g.R = random.Random(k)      # the same formula under every option setting
                big = n > 9
                cs = [g.clause(n, (3, 3, 3, 2)) for _ in range(int(n * g.R.uniform(3.6, 4.8)))]
                g.scenario(n, o, ["stopunsat", "new %d 0" % n] + ["add " + " ".join(map(str, c)) for c in cs] + ["solve"], traced=False, big=big)
                g.out[-1] = ("g%d-%s" % (k % 100000007, g.out[-1][0]), g.out[-1][1])
                g.out[-1][1][0] = g.out[-1][1][0].replace("scn s", "scn g%d-s" % (k % 100000007))
            g.R = random.Random(k + 1)
    else:
        for _ in range(count):
            o = g.R.choice(opts)
            getattr(g, fam)(gen.mixed(g.R, o) if len(opts) > 4 and g.R.random() < .25 else o, **kw)
    return g.out, states


def groups(recs):
    """one record per formula that was solved under several settings: their answers"""
    by = {}
    for r in recs:
        if r["name"].startswith("g") and "-s" in r["name"]:
            by.setdefault(r["name"].split("-s")[0], []).extend(e["r"] for e in r["ev"] if e["e"] == "solve")
    return [{"name": k, "n": 1, "p": 1, "ev": [{"e": "agree", "r": v}]} for k, v in by.items()]
