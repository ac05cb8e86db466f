"""One run of a check: explore, validate, confirm, report."""
import concurrent.futures, json, os, sys, time, zlib
import build, run, tlc
import solver_checks as sc

ROOT = build.ROOT
PARALLEL = 3        # validations at the same time


class Check:
    def __init__(self, pid, tier, seed, work):
        self.pid, self.tier, self.seed, self.work = pid, tier, seed, work
        self.deep = tier == "thorough"
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.violations = [], [], []
        self.known = []
        for line in open(os.path.join(ROOT, "KNOWN_FINDINGS")) if os.path.exists(os.path.join(ROOT, "KNOWN_FINDINGS")) else []:
            if line.startswith("KNOWN-FINDING: property=%s " % pid):
                self.known.append(line.strip())

    def budget(self):
        return 600 if self.deep else 75

    def elapsed(self):
        return time.time() - self.t0

    def rng(self, name):
        return zlib.crc32(("%s/%s/%d" % (self.pid, name, self.seed)).encode())

    def violation(self, text, detail):
        """detail: everything needed to replay"""
        d = os.path.join(ROOT, "evidence")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-replay-%d.txt" % (self.pid, len(self.violations)))
        open(p, "w").write(detail)
        self.violations.append(text)
        print("VIOLATION property=%s replay=%s" % (self.pid, p))
        print("  " + text)
        sys.stdout.flush()

    def finish(self):
        d = os.path.join(ROOT, "evidence")
        os.makedirs(d, exist_ok=True)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                           "samples": self.samples[:4] or ["none"], "explanation": "; ".join(self.notes)},
              "assumptions": ["TLC evaluates the specification correctly", "the drivers report calls and results truthfully"],
              "wall_s": round(self.elapsed(), 1), "violations": len(self.violations)}
        json.dump(ev, open(os.path.join(d, self.pid + ".json"), "w"), indent=1)
        for k in self.known:
            print(k)
        return 1 if self.violations else 0


def design(c):
    """The design model, explored exhaustively."""
    inv = sorted(set(sc.DESIGN[c.pid]))
    runs = [("FreeSpec", 2, 2, 3, 2, 1), ("SearchSpec", 2, 8, 9, 2, 0)]
    if c.deep:
        runs = [("FreeSpec", 2, 3, 4, 2, 1), ("SearchSpec", 2, 8, 9, 2, 0), ("SearchSpec", 3, 3, 9, 3, 0)]
    for spec, n, a, d, z, m in runs:
        cfg = "SPECIFICATION %s\nCONSTANTS N=%d\nMaxAdd=%d\nMaxDb=%d\nMaxSize=%d\nMaxAsm=%d\nCHECK_DEADLOCK FALSE\n" % (spec, n, a, d, z, m)
        cfg += "".join("INVARIANT %s\n" % i for i in inv)
        if spec == "SearchSpec":
            cfg += "INVARIANT Progress\nINVARIANT Ordered\nINVARIANT LevelsAnnounced\nPROPERTY Terminates\n"
        out, gen, dist, bad = tlc.run("MCSolver", cfg, timeout=800)
        if bad:
            raise tlc.TLCError("the design model violates its own invariants\n" + out[-4000:])
        c.states += dist
        c.transitions += gen
        c.notes.append("design %s(%d variables, %d clauses): %d states" % (spec, n, a, dist))
    if c.pid == "P33":
        for k, m, t in ([(4, 4, "FALSE"), (4, 4, "TRUE")] if not c.deep else [(4, 4, "FALSE"), (4, 4, "TRUE"), (5, 3, "FALSE"), (4, 5, "FALSE")]):
            out, gen, dist, bad = tlc.run("MCRepairs", "SPECIFICATION Spec\nINVARIANT Complete\nINVARIANT Irredundant\nCHECK_DEADLOCK FALSE\nCONSTANTS K = %d\nM = %d\nTwice = %s\n" % (k, m, t), timeout=800)
            if bad:
                raise tlc.TLCError("the choice of repairs violates its own invariants\n" + out[-4000:])
            c.states += dist
            c.transitions += gen
            c.notes.append("repairs (%d decisions, %d conflicts): %d states" % (k, m, dist))


def batches(recs, limit):
    out, size = [[]], 0
    for r in recs:
        if size > limit:
            out.append([])
            size = 0
        out[-1].append(r)
        size += len(r["ev"]) * (4 if r["p"] % 2 else 1)
    return [b for b in out if b]


def solver(c):
    watch = sc.WATCH[c.pid] + sc.ALWAYS
    exes = build.build([("napdrv", "d", "all"), ("napdrv", "r", "all")])
    c.notes.append("built in %.0f s" % c.elapsed())
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        explored = ex.submit(design, c)
        list(ex.map(lambda e: sc.prefetch(e, c.rng("tlc"), c.deep), sc.plan(c.pid)))
        explored.result()
    rounds = 0
    while not c.violations:
        with concurrent.futures.ThreadPoolExecutor(PARALLEL) as ex:
            jobs = []
            for kind in "d" if c.pid == "P30" else "dr":
                pool, scripts = [], {}
                for j, entry in enumerate(sc.plan(c.pid)):
                    scn, st = sc.scenarios(entry, 1.0, c.rng("%d/%d/%s" % (j, rounds, kind)), c.deep, c.rng("tlc") + rounds)
                    if rounds == 0 and kind == "d":
                        c.states += st
                    for name, lines in scn:
                        new = name.split("-s")[0] + "-s%d" % len(pool) if name.startswith("g") else "s%d" % len(pool)
                        lines = [lines[0].replace("scn " + name + " ", "scn " + new + " ")] + lines[1:]
                        pool.append((new, lines))
                        scripts[new] = (lines, entry[0])
                recs = run.drive(exes[("napdrv", kind)], pool, cpu=10, work=c.work)
                skipped = sum(1 for r in recs if r.get("skip"))
                recs = recs + sc.groups(recs)
                if rounds == 0 and kind == "d":
                    c.samples += ["\n".join(pool[k][1]) for k in (0, len(pool) // 2)]
                jobs += [(kind, scripts, b, ex.submit(run.validate, b, watch, c.work)) for b in batches(recs, 90000)]
                c.notes.append("round %d %s: %d executions, %d events%s" % (rounds, kind, len(recs), sum(len(r["ev"]) for r in recs), ", %d skipped" % skipped if skipped else ""))
                del recs
            for kind, scripts, b, job in jobs:
                con, g, d = job.result()
                while True:
                    c.states += d
                    c.transitions += g
                    if con is None:
                        c.traces += len(b)
                        break
                    if confirm(c, con, kind, exes[("napdrv", kind)], scripts, watch):
                        for j in jobs:
                            j[3].cancel()
                        return
                    c.notes.append("a rejection of %s was not repeated" % con["name"])
                    b = [r for r in b if r["name"] != con["name"]]
                    con, g, d = run.validate(b, watch, c.work)
        rounds += 1
        if not c.deep or c.elapsed() > c.budget():
            break


def confirm(c, con, kind, exe, scripts, watch):
    """run the rejected scenario again on its own; report it if it is rejected again"""
    name = con["name"]
    mine = [(k, v[0]) for k, v in scripts.items() if k == name or k.startswith(name + "-s")]
    recs = run.drive(exe, mine, cpu=10, jobs=1, work=c.work)
    again, _, _ = run.validate(recs + sc.groups(recs), watch, c.work)
    if not again:
        return False
    detail = "property %s, %s build\nrejected event %d: %s\nguards broken: %s\n\nscenario (for harness/napdrv):\n%s\n" % (
        c.pid, "debug" if kind == "d" else "release", again["at"], json.dumps(again["event"]), ", ".join(again["labels"]),
        "\n\n".join("\n".join(ls) for _, ls in mine))
    c.violation("%s at event %d (%s) of %s" % (", ".join(again["labels"]), again["at"], again["event"]["e"], name), detail)
    return True
