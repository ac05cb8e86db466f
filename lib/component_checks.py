"""The checks of the stand-alone components: behaviours of the component specifications replayed on the real code,
and everything the code reports validated against the same specifications."""
import json, random
import build, run, tlc
import compgen

KIND = {"P18": "options", "P21": "bitset", "P22": "heap", "P23": "tree", "P24": "luby", "P25": "deps", "P26": "proof"}

# design models explored exhaustively: (module, configuration)
DESIGN = {
    "P18": [("MCSettings", "SPECIFICATION Spec\nINVARIANT Confluent\nINVARIANT Sound\nCHECK_DEADLOCK FALSE\n")],
    "P21": [("MCBitSets", "SPECIFICATION Spec\nCONSTANTS W = 2\nB = 3\nINVARIANT Represents\nINVARIANT Answers\nCHECK_DEADLOCK FALSE\n")],
    "P22": [("MCHeaps", "SPECIFICATION Spec\nCONSTANTS K = 5\nA = 2\nINVARIANT Ordered\nINVARIANT Indexed\nINVARIANT Refines\nCHECK_DEADLOCK FALSE\n")],
    "P23": [("MCTrees", "SPECIFICATION Spec\nCONSTANTS K = 4\nD = 2\nINVARIANT Shape\nINVARIANT Content\nINVARIANT BestFit\nCHECK_DEADLOCK FALSE\n")],
    "P24": [("MCLuby", "SPECIFICATION Spec\nCONSTANT Limit = 40000\nINVARIANT Same\nCHECK_DEADLOCK FALSE\n")],
    "P25": [("MCDependencies", "SPECIFICATION Spec\nCONSTANTS Ids = 3\nDepth = 7\nINVARIANT Reachable\nCHECK_DEADLOCK FALSE\n")],
    "P26": [("MCRefutations", "SPECIFICATION Spec\nCONSTANTS Ids = 4\nINVARIANT StepsFollow\nINVARIANT EmptyUnsat\nCHECK_DEADLOCK FALSE\n")],
}


def design(c):
    for module, cfg in DESIGN.get(c.pid, []):
        out, gen, dist, bad = tlc.run(module, cfg, timeout=800)
        if bad:
            raise tlc.TLCError("the design model %s violates its own invariants\n%s" % (module, out[-4000:]))
        c.states += dist
        c.transitions += gen
        c.notes.append("design %s: %d states" % (module, dist))


def validate(recs, work, n=0):
    """-> (conflict or None, generated, distinct)"""
    return run.validate(recs, None, work, module="TraceComp")


def run_kind(c):
    kind = KIND[c.pid]
    exes = build.build([("compdrv", "d", "all"), ("compdrv", "r", "all")])
    c.notes.append("built in %.0f s" % c.elapsed())
    design(c)
    rounds = 0
    while not c.violations:
        pool, states = compgen.scripts(kind, c.rng("r%d" % rounds), c.deep, rounds)
        c.states += states
        for b in "dr":
            mine = [(n, ["scn %s %s" % (n, kind)] + ls) for n, ls, debug in pool if debug or b == "r"]
            recs = run.drive(exes[("compdrv", b)], mine, cpu=10, work=c.work)
            by = dict(mine)
            if rounds == 0 and b == "d":
                c.samples += ["\n".join(mine[k][1]).replace("\x1f", " ") for k in (0, len(mine) // 2, len(mine) - 1)]
            todo = recs
            while todo:
                part, rest, size = [], [], 0
                for r in todo:
                    (part if size < 250000 else rest).append(r)
                    size += len(r["ev"])
                con, g, d = validate(part, c.work)
                c.states += d
                c.transitions += g
                if con is None:
                    c.traces += len(part)
                    todo = rest
                    continue
                again = run.drive(exes[("compdrv", b)], [(con["name"], by[con["name"]])], cpu=10, jobs=1, work=c.work)
                con2, _, _ = validate(again, c.work)
                if con2:
                    c.violation("%s at call %d (%s) of %s" % (", ".join(con2["labels"]), con2["at"], con2["event"].get("o"), con2["name"]),
                                "property %s, %s build\nrejected call %d: %s\nguards broken: %s\n\nscript (for harness/compdrv):\n%s\n" % (
                                    c.pid, "debug" if b == "d" else "release", con2["at"], json.dumps(con2["event"]), ", ".join(con2["labels"]),
                                    "\n".join(by[con2["name"]])))
                    return
                c.notes.append("a rejection of %s was not repeated" % con["name"])
                todo = [r for r in todo if r["name"] != con["name"]]
            c.notes.append("round %d %s: %d scripts, %d calls" % (rounds, b, len(recs), sum(len(r["ev"]) for r in recs)))
        rounds += 1
        if not c.deep or c.elapsed() > c.budget():
            break


def run_check(c):
    if c.pid in KIND:
        run_kind(c)
    else:
        __import__("file_checks").run_check(c)
