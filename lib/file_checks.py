"""The checks of the file readers and of the command-line tool."""
import bz2, json, lzma, os, random, re, shutil, subprocess, concurrent.futures
import build, gen, run, tlc, verdict
from gen import EVERY, BASE

WATCH = {
    "P19": ["file-accepted", "file-refused", "variable-count-wrong", "sat-wrong", "unsat-wrong", "model-partial", "model-inconsistent", "assignment-inconsistent",
            "models-missed", "model-repeated", "no-answer"],
    "P20": ["file-accepted", "file-refused", "variable-count-wrong", "sat-wrong", "unsat-wrong", "model-partial", "models-missed", "model-repeated", "no-answer"],
    "P28": ["about-refused", "file-accepted", "file-refused", "answer-wrong", "models-wrong", "proof-rejected", "proof-step-wrong", "proof-leaf-wrong", "proof-incomplete"],
}


class Files:
    def __init__(self, seed, work):
        self.R = random.Random(seed)
        self.g = gen.Gen(seed)
        self.d = os.path.join(work, "files%d" % seed)
        os.makedirs(self.d, exist_ok=True)
        self.k = 0

    def write(self, data, suffix=".cnf"):
        self.k += 1
        p = os.path.join(self.d, "f%d%s" % (self.k, suffix))
        with open(p, "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode())
        return p

    def clauses(self, n, m=None):
        R = self.R
        m = R.randint(0, 3 * n) if m is None else m
        cs = []
        for _ in range(m):
            c = self.g.clause(n)
            if R.random() < .01:
                c = []
            cs.append(c)
        return cs

    def comment(self, n):
        R = self.R
        return R.choice(["c", "c a comment", "c 1 2 0", "c p cnf 9 9", "cxyz 1 0", "cw", "cw x 1", "cw 1", "c %", "cw %d %s" % (R.randint(1, n), R.choice(["2", "0.5", "10", "0"])),
                         "co %d name%d" % (R.randint(1, n), R.randint(0, 9)), "cw 1 2 3", "co 1", "  c indented"])

    def text(self, n, cs, style=None):
        """one of the many ways to write the clauses"""
        R = self.R
        style = R.choice(["plain", "plain", "spread", "joined", "mixed", "mixed"]) if style is None else style
        out = []
        comments = R.random() < .5
        if comments and R.random() < .5:
            out.append(self.comment(n))
        x = R.random()
        if x < .6:
            out.append("p cnf %d %d" % (n, len(cs)))
        elif x < .7:
            out.append("p cnf %d %d" % (R.randint(0, n), R.randint(0, 9)))
        elif x < .75:
            out.append("  p cnf %d  %d  " % (n, len(cs)))
        words = []
        num = lambda l: ("+%d" % l if l > 0 and R.random() < .03 else "%d" % l)
        for c in cs:
            words += [num(l) for l in c] + [R.choice(["0"] * 30 + ["00", "-0", "+0"])]
        if style == "plain":
            line = []
            for w in words:
                line.append(w)
                if int(w) == 0:
                    out.append(" ".join(line))
                    line = []
                    if comments and R.random() < .2:
                        out.append(self.comment(n))
        else:
            line = []
            for w in words:
                line.append(w)
                if (style == "spread" and R.random() < .6) or (style == "joined" and R.random() < .1) or (style == "mixed" and R.random() < .35):
                    out.append(R.choice([" ", " ", "  ", "\t"]).join(line))
                    line = []
                    if comments and R.random() < .2:
                        out.append(self.comment(n))
                    if R.random() < .1:
                        out.append(R.choice(["", "   ", "\t"]))
                    if R.random() < .03:
                        out.append("p cnf %d %d" % (R.randint(0, n), 3))
            if line:
                out.append(" ".join(line))
        if R.random() < .1 and out and out[-1] and style == "plain" and cs and cs[-1]:
            out[-1] = re.sub(r"\s*[+-]?0+$", "", out[-1])         # the last clause lacks its 0
        if R.random() < .15:
            out.append(R.choice(["%", "%%", "% end"]))
            out += R.choice([[], ["0"], ["1 0", "-1 0"], ["junk"], ["0", ""]])
        eol = R.choice(["\n"] * 6 + ["\r\n"])
        lead = R.choice([""] * 8 + [" ", "\t"])
        return eol.join(lead + l for l in out) + R.choice([eol, eol, ""])

    def broken(self, n, cs):
        R = self.R
        ls = self.text(n, cs, "plain").replace("%", "c").split("\n")
        k = R.randint(0, len(ls))
        x = R.random()
        if x < .6:
            j = R.choice(["x", "1.5", "3x", "99999999999", "--1", "1e1", "-", "0x1", "2147483648", "-2147483648", "a b", "1,", "-99999999999999999999"])
            ls.insert(k, R.choice([j, "1 %s 0" % j, "%s 0" % j, "1 0 %s" % j, "1 -2\n%s 0" % j]))
        else:
            ls.insert(0, R.choice(["p cnf", "p cnf 3", "p cnf x 3", "p cnf -3 3", "p cnf 3 -3", "p cnf 99999999999 3", "p dnf 3 3", "p", "pcnf 3 3", "q", "p cnf 3 x"]))
        return "\n".join(ls)

    def limit(self):
        return self.R.randint(2, 6)


def plain_scenarios(F, count):
    """P19"""
    R = F.R
    for _ in range(count):
        n = F.limit()
        o = ["new %d 0" % R.choice([0, 0, 0, n, 2])]
        files = R.randint(1, 3)
        for j in range(files):
            x = R.random()
            if x < .8:
                o.append("parse %s %s" % (lambda p: (p, p))(F.write(F.text(n, F.clauses(n, None if R.random() < .8 else R.randint(0, 3))), R.choice([".cnf", ".cnf", ".dimacs", ""]))))
            elif x < .9:
                p = F.write(F.broken(n, F.clauses(n, R.randint(0, 4))))
                o.append("parse %s %s" % (p, p))
            elif x < .93:
                o.append("parse %s -" % os.path.join(F.d, R.choice(["missing.cnf", "no/such/file", "missing.xz", "missing.bz2"])))
            elif x < .96:
                p = F.write("")
                o.append("parse %s %s" % (p, p))
            if R.random() < .3:
                o.append(F.g.add(n))
            if R.random() < .4:
                o.append(R.choice(["solve", "solve", "solve\nblock %d" % n, "prop\nautodecide", "limit 1", "newvar"]))
            elif "-gb" in (opts := R.choice(EVERY)) and R.random() < .2:
                pass
        o += R.choice([["solve"], ["enum %d %d" % (2 ** n + 1, n)], ["enum %d %d" % (2 ** n + 1, n)]])
        if any(x == "newvar" for x in o):
            n += 1 + sum(x == "newvar" for x in o)
        F.g.scenario(n + 1, R.choice(EVERY), o, traced=R.random() < .4)
    # solved under assumptions before the next file
    for _ in range(count // 5):
        n = F.limit()
        o = ["new %d 0" % n, "parse %s %s" % (lambda p: (p, p))(F.write(F.text(n, F.clauses(n, n))))]
        for _ in range(R.randint(1, 3)):
            o += ["assume %d" % F.g.lit(n), "solve"]
        o += ["parse %s %s" % (lambda p: (p, p))(F.write(F.text(n, F.clauses(n, n)))), "forgetall", "solve", "enum %d %d" % (2 ** n + 1, n)]
        F.g.scenario(n + 1, ["-gb"], o, traced=False)
    # larger files
    for _ in range(count // 10):
        n = R.randint(12, 40)
        p = F.write(F.text(n, [F.g.clause(n, (3, 3, 3, 4)) for _ in range(int(n * R.uniform(3, 4)))]))
        F.g.scenario(n + 1, R.choice(EVERY), ["stopunsat", "new 0 0", "parse %s %s" % (p, p), "solve"], traced=False, big=True)


def noise(R, size, dense):
    """comment lines of a given total size"""
    out, left = [], size
    while left > 0:
        k = min(left, R.choice([20, 70, 200]))
        body = ("".join(R.choice("0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJ") for _ in range(k)) if dense else "x" * k)
        out.append(("c " + body)[:max(1, k - 1)])
        left -= k
    return "\n".join(out) + "\n" if out else ""


def pack(R, data, kind):
    """one or several compressed streams standing for data"""
    parts = [data]
    if R.random() < .25:
        cuts = sorted(R.randint(0, len(data)) for _ in range(R.randint(1, 3)))
        parts = [data[a:b] for a, b in zip([0] + cuts, cuts + [len(data)])]
    if kind == "xz":
        return b"".join(lzma.compress(x, preset=R.choice([0, 1, 6]), check=R.choice([lzma.CHECK_CRC32, lzma.CHECK_CRC64, lzma.CHECK_SHA256, lzma.CHECK_NONE])) for x in parts), len(parts)
    return b"".join(bz2.compress(x, R.choice([1, 1, 5, 9])) for x in parts), len(parts)


def packed_scenarios(F, count):
    """P20"""
    R = F.R
    for j in range(count):
        n = F.limit()
        kind = R.choice(["xz", "bz2"])
        body = F.text(n, F.clauses(n))
        if "%" in body:
            body = body.replace("%", "c")
        size = R.choice([0, 0, R.randint(0, 600), R.randint(3500, 9000), R.randint(0, 30000), 120000 if j % 20 == 0 else 0, 300000 if j % 40 == 0 else 0])
        pad = noise(R, size, R.random() < .6)
        text = pad + body if R.random() < .5 else (body if body.endswith("\n") else body + "\n") + pad + "1 0\n"
        data = text.encode()
        if R.random() < .5:
            # plain or packed sizes at the boundaries of the buffers (256, 4096)
            unit = R.choice([256, 4096])
            goal = R.choice([0, 1, unit - 1])
            if R.random() < .5:
                extra = (goal - len(data) - 3) % unit
                data = b"c " + b"y" * extra + b"\n" + data
            else:
                for _ in range(400):
                    c, _k = pack(R, data, kind)
                    if len(c) % 256 == goal % 256:
                        break
                    data = b"c" + R.choice("abcdefgh").encode() * R.randint(1, 9) + b"\n" + data
        x = R.random()
        p = F.write(data)
        o = ["new 0 0"]
        if x < .6:
            c, _k = pack(R, data, kind)
            q = F.write(c, "." + kind)
            o += ["parse %s %s" % (q, p)]
            if R.random() < .3:
                o += ["solve", "parse %s %s" % (q, p)]
            o.append(R.choice(["solve", "enum %d %d" % (2 ** n + 1, n)]))
        else:
            c = lzma.compress(data, preset=0) if kind == "xz" else bz2.compress(data, 1)
            if x < .8:
                cut = R.choice([len(c) - 1, len(c) - R.randint(1, min(40, len(c))), R.randrange(len(c)), 0, len(c) // 256 * 256])
                c = c[:cut] if cut < len(c) else c[:-1]
            elif x < .95:
                bad = None
                for _ in range(20):
                    b = bytearray(c)
                    for _ in range(R.randint(1, 3)):
                        b[R.randrange(len(b))] ^= 1 << R.randrange(8)
                    try:
                        (lzma if kind == "xz" else bz2).decompress(bytes(b))
                    except Exception:
                        bad = bytes(b)
                        break
                c = bad or c[:-1]
            else:
                c = data if R.random() < .5 or kind == "bz2" else c + b"junk"
            o.append("parse %s -" % F.write(c, "." + kind))
        F.g.scenario(n + 1, R.choice(BASE), o, traced=False, big=False)


def tool_runs(F, count):
    """P28: (file, plain file or -, tokens, all models?)"""
    R = F.R
    res = []
    for words in (["--all-models"], [], ["-h"], ["--help"], ["-v"], ["--version"], ["--all-models", "-h"], ["--help", "-cp"], ["-v", "--all-models"]):
        res.append((None, "-", words, "--all-models" in words))  # no file: a usage error, or information about the tool
    for _ in range(count):
        n = F.limit()
        cs = F.clauses(n, R.randint(0, 3 * n) if R.random() < .6 else R.randint(2 * n, 5 * n))
        toks = list(R.choice(EVERY))
        x = R.random()
        all_models = False
        if x < .8:
            text = F.text(n, cs)
            p = F.write(text)
            q = p
            if R.random() < .3:
                kind = R.choice(["xz", "bz2"])
                q = F.write(pack(R, text.encode(), kind)[0], "." + kind)
            all_models = R.random() < .35
        elif x < .92:
            q = p = F.write(F.broken(n, cs))
        else:
            q, p = os.path.join(F.d, R.choice(["missing.cnf", "missing.xz"])), "-"
        if R.random() < .3:
            toks += R.choice([["-si"], ["-sw"], ["-si", "on"], ["--suppress-warning", "off"], ["-icf", "/nowhere"], ["--unknown"], ["--var-activity-decay", "0.9"], ["junk"]])
        if R.random() < .3 and "-lcm" not in toks and not all_models:
            toks += R.choice([["-cp"], ["-pp"], ["-pp", "-cp"], ["-bp"]])
        if R.random() < .15:
            toks += R.choice([["-o"], ["-o", "{--gui}"], ["-o", "-stat"], ["--observing", "on"], ["-c"]])
        if R.random() < .1 and not all_models:
            toks += [R.choice(["-cl", "--conflict-limit"]), str(R.randint(0, 3))]
        if R.random() < .1 and not all_models:
            toks.append("-iuv")
        res.append((q, p, toks, all_models))
    return res


LINE = re.compile(r"^(\S+): \((.*?)\) \[(.*)\]")


def command(exe, job):
    q, _, toks, all_models = job
    return [exe] + (toks if q is None else (["--all-models"] if all_models else []) + [q] + toks)


def run_tool(exe, job):
    q, p, toks, all_models = job
    cmd = command(exe, job)
    try:
        r = subprocess.run(cmd, stdin=subprocess.DEVNULL, capture_output=True, timeout=60, env=run.ENV)
        out, code = r.stdout.decode(errors="replace"), r.returncode
        err = r.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        out, code, err = "", 124, ""
    answers = [l for l in out.replace("\r", "\n").split("\n") if l in ("s SATISFIABLE", "s UNSATISFIABLE", "UNKNOWN", "s TIMEOUT")]
    ans = {"s SATISFIABLE": "SAT", "s UNSATISFIABLE": "UNSAT", "UNKNOWN": "UNKNOWN"}.get(answers[0], "odd") if len(answers) == 1 else "" if not answers else "several"
    ev = [{"e": "tool", "code": code, "ans": ans, "models": out.count("Model found:"), "all": int(all_models), "lim": int("-cl" in toks or "--conflict-limit" in toks)}]
    if q is None and toks and toks[0] in ("-h", "--help", "-v", "--version"):
        ev[0] = {"e": "about", "code": code, "ans": ans}
    if ("-cp" in toks) and ans == "UNSAT":
        ev.append({"e": "proof", "ok": int("proof is invalid" not in out + err)})
    if "-pp" in toks and ans == "UNSAT":
        for l in out.split("\n"):
            m = LINE.match(l)
            if m:
                c = [-int(w[1:]) if w[0] == "~" else int(w) for w in m.group(2).split()]
                a, b = (m.group(3)[11:].split(", ") if m.group(3).startswith("resolution ") else ("", ""))
                ev.append({"e": "pl", "i": m.group(1), "c": c, "a": a, "b": b})
        ev.append({"e": "pend"})
    return ev


def number(path):
    """variables of a file: what the specification needs to enumerate assignments"""
    return 0


def run_check(c):
    watch = WATCH[c.pid] + ["crash", "unknown-variable"]
    targets = [("napdrv", "d", "all"), ("napdrv", "r", "all")] + ([("napsat", "d", "all"), ("napsat", "r", "all")] if c.pid == "P28" else [])
    exes = build.build(targets)
    c.notes.append("built in %.0f s" % c.elapsed())
    rounds = 0
    while not c.violations:
        for kind in "dr":
            F = Files(c.rng("%d/%s" % (rounds, kind)) % 1000000007, c.work)
            jobs = {}
            if c.pid == "P19":
                plain_scenarios(F, 500)
            elif c.pid == "P20":
                packed_scenarios(F, 400)
            else:
                for q, p, toks, am in tool_runs(F, 300):
                    F.g.scenario(0, [], ["file %s %d" % (p, int(q is not None and ("-o" in toks or "--observing" in toks or "-c" in toks)))], traced=False)
                    jobs[F.g.out[-1][0]] = (q, p, toks, am)
            pool = [(n, [l for l in ls if not (c.pid == "P28" and l == "delete")]) for n, ls in F.g.out]
            recs = execute(c, kind, exes, pool, jobs)
            if rounds == 0 and kind == "d":
                c.samples += ["\n".join(pool[k][1]) for k in (0, len(pool) // 2)]
            for b in verdict.batches(recs, 220000):
                while True:
                    con, g, d = run.validate(b, watch, c.work)
                    c.states += d
                    c.transitions += g
                    if con is None:
                        c.traces += len(b)
                        break
                    mine = [x for x in pool if x[0] == con["name"]]
                    again, _, _ = run.validate(execute(c, kind, exes, mine, jobs), watch, c.work)
                    if again:
                        report(c, again, kind, mine, jobs)
                        return
                    c.notes.append("a rejection of %s was not repeated" % con["name"])
                    b = [r for r in b if r["name"] != con["name"]]
            c.notes.append("round %d %s: %d executions" % (rounds, kind, len(recs)))
            shutil.rmtree(F.d, ignore_errors=True)
        rounds += 1
        if not c.deep or c.elapsed() > c.budget():
            break


def execute(c, kind, exes, pool, jobs):
    recs = run.drive(exes[("napdrv", kind)], pool, cpu=10, work=c.work)
    if jobs:
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            evs = list(ex.map(lambda r: run_tool(exes[("napsat", kind)], jobs[r["name"]]), recs))
        for r, e in zip(recs, evs):
            r["ev"] = r["ev"] + e
            # the variables the file declares, as the specification will read them again
            r["n"] = declared(r["ev"][0])
    return recs


def declared(ev):
    n = 0
    for l in ev["f"]:
        if l["w"]:
            h = l["w"][0]
            if h[0] == "%":
                break
            if h[0] == "c":
                if len(l["w"]) == 3 and l["q"][1] == 2 and l["v"][1] > 0 and ((h == "cw" and l["q"][2]) or (h == "co" and ev["al"])):
                    n = max(n, l["v"][1])
            elif h == "p":
                if len(l["w"]) >= 4 and l["q"][2] == 2 and 0 <= l["v"][2] < 100:
                    n = max(n, l["v"][2])
            else:
                n = max([n] + [abs(v) for v in l["v"] if abs(v) < 100])
    return n


def report(c, again, kind, mine, jobs):
    detail = "property %s, %s build\nrejected event %d: %s\nguards broken: %s\n\nscenario (for harness/napdrv):\n%s\n" % (
        c.pid, "debug" if kind == "d" else "release", again["at"], json.dumps(again["event"]), ", ".join(again["labels"]), "\n".join(mine[0][1]))
    if mine[0][0] in jobs:
        detail += "command line: %s\n" % " ".join(command("NapSAT", jobs[mine[0][0]]))
    for l in mine[0][1]:
        t = l.split()
        for f in t[1:] if t and t[0] in ("parse", "file") else []:
            if os.path.exists(f) and os.path.getsize(f) < 20000:
                detail += "\n--- %s\n%r\n" % (f, open(f, "rb").read())
    c.violation("%s at event %d (%s) of %s" % (", ".join(again["labels"]), again["at"], again["event"]["e"], mine[0][0]), detail)
