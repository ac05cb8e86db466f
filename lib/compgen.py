"""Scripts for compdrv: behaviours of CompGen.tla, and random ones where the specification's calls are restricted."""
import random
import tlc

# (picked kinds of calls, depth) explored exhaustively and by simulation
ALL = None
EXH = {"heap": [("SMALL", 0)], "tree": [], "deps": [], "proof": [], "bitset": [], "luby": []}
SIM = {"bitset": (["set", "clr", "clear", "resize", "copy", "get", "cmp", "full", "and", "or", "xor", "sub", "iand", "ior", "ixor", "isub"], 40, 250),
       "heap": (["insert", "insert2", "insert3", "remove", "inc", "upd", "norm", "pop", "top"], 40, 300),
       "tree": (["insert", "insert2", "insert3", "remove", "remove2", "find"], 60, 250),
       "luby": (["run", "reset"], 12, 150),
       "deps": (["input", "learned", "link", "start", "track", "track2", "cancel", "commit", "delete"], 30, 300),
       "proof": (["input", "input2", "begin", "link", "link2", "link3", "link4", "cancel", "derive", "derive2", "drop", "check", "print"], 40, 300)}


def lines(kind, script):
    out = []
    for c in script:
        o, a = c["o"], c["a"]
        if kind == "bitset" and o == "init":
            out += ["new %d %d" % (r, a[0]) for r in range(1, 5)]
        elif kind == "bitset" and o == "grow":
            out += ["resize %d %d" % (r, a[0]) for r in range(1, 5)]
        else:
            out.append(" ".join([o] + [str(x) for x in a]))
    return out


def scripts(kind, seed, deep, rnd):
    """-> [(name, lines, allowed in the debug build)], states of the generator"""
    R = random.Random(seed)
    pool, states = [], 0
    if kind in SIM:
        picked, depth, num = SIM[kind]
        s, g, n = tlc.generate("CompGen", {"Kind": '"%s"' % kind, "Depth": str(depth), "Picked": "{%s}" % ", ".join('"%s"' % p for p in picked)},
                               2 * depth + 3, num=num * (4 if deep else 1), seed=seed % 100000 + rnd)
        states += n
        pool += [lines(kind, x) for x in s]
    debug = [True] * len(pool)
    extra = globals().get("more_" + kind)
    if extra:
        for ls, d in extra(R, deep):
            pool.append(ls)
            debug.append(d)
    return [("s%d" % i, ls, debug[i]) for i, ls in enumerate(pool)], states


# ---- larger and less regular scripts than the specification's generator yields ----
def more_heap(R, deep):
    for _ in range(60 * (3 if deep else 1)):
        n, out, inside, m = R.randint(3, 40), [], {}, 0
        for _ in range(R.randint(10, 120)):
            x = R.random()
            free = [k for k in range(1, n + 1) if k not in inside]
            a = R.choice([R.randint(0, 5), R.randint(0, 1000)])
            if free and (x < .45 or not inside):
                k = R.choice(free)
                inside[k] = a
                out.append("insert %d %d" % (k, a))
            elif not inside:
                break
            else:
                k = R.choice(list(inside))
                if x < .6:
                    inside[k] = a
                    out.append("upd %d %d" % (k, a))
                elif x < .75:
                    inside[k] = inside[k] + R.randint(0, 9)
                    out.append("inc %d %d" % (k, inside[k]))
                elif x < .9:
                    del inside[k]
                    out.append("remove %d" % k)
                else:
                    out.append("top")
        yield out, True
        if R.random() < .5 and inside:
            # activities all different: pops are determined
            vals = R.sample(range(1000), len(inside))
            yield out + ["upd %d %d" % (k, v) for k, v in zip(inside, vals)] + ["pop"] * len(inside), True


def more_tree(R, deep):
    for _ in range(40 * (3 if deep else 1)):
        n, out, have = R.choice([4, 12, 40, 200]), [], []
        order = R.choice(["up", "down", "random", "random"])
        ks = list(range(1, n + 1)) if order == "up" else list(range(n, 0, -1)) if order == "down" else [R.randint(1, n) for _ in range(n)]
        for k in ks[:60]:
            d = R.randint(1, 3)
            out.append("insert %d %d" % (k, d))
            have.append((k, d))
            if R.random() < .3:
                out.append("find %d" % R.randint(0, n + 1))
            if R.random() < .35 and have:
                out.append("remove %d %d" % R.choice(have))
        R.shuffle(have)
        out += ["remove %d %d" % p for p in have]
        yield out, True


def more_bitset(R, deep):
    for _ in range(60 * (3 if deep else 1)):
        cap = R.choice([R.randint(1, 70), R.randint(60, 300), R.randint(3900, 4200), R.randint(8000, 9000), R.randint(1, 20000), 64 * R.randint(1, 200)])
        out = ["new %d %d" % (r, cap) for r in range(1, 5)]
        spots = [R.randrange(cap) for _ in range(6)] + [0, cap - 1, cap // 64 * 64 % cap, (cap // 64 * 64 - 1) % cap]
        for _ in range(R.randint(10, 60)):
            x = R.random()
            a, b, d = R.randint(1, 4), R.randint(1, 4), R.randint(1, 4)
            e = R.choice(spots) if R.random() < .7 else R.randrange(cap)
            if x < .35:
                out.append("set %d %d 1" % (a, e))
            elif x < .45:
                out.append("set %d %d 0" % (a, e))
            elif x < .5:
                out.append("get %d %d" % (a, e))
            elif x < .65:
                out.append("%s %d %d %d" % (R.choice(["and", "or", "xor", "sub"]), a, b, d))
            elif x < .8:
                out.append("%s %d %d" % (R.choice(["iand", "ior", "ixor", "isub"]), a, b))
            elif x < .92:
                out.append("cmp %d %d" % (a, b))
            elif x < .95:
                out.append(R.choice(["clear %d" % a, "copy %d %d" % (a, b)]))
            else:
                cap += R.choice([1, 63, 64, 4032, R.randint(0, 5000)])
                out += ["resize %d %d" % (r, cap) for r in range(1, 5)]
                spots += [cap - 1, R.randrange(cap)]
        yield out, True


def more_luby(R, deep):
    yield ["run %d" % (1 << 22)] * 4, True
    yield ["run %d" % ((1 << 30) if deep else (1 << 27))], False
    yield ["run %d" % R.randint(1, 1 << 20), "reset", "run %d" % (1 << 20)], True
    for _ in range(30):
        yield [R.choice(["run %d" % R.choice([1, 2, 3, R.randint(1, 5000)]), "run %d" % R.randint(1, 40), "reset"]) for _ in range(25)], True
    for k in range(1, 60):
        yield ["run %d" % k, "reset", "run 70"], True


def more_proof(R, deep):
    for _ in range(250 * (3 if deep else 1)):
        yield refutation(R)


def refutation(R):
    """a refutation found by saturation, as chains over reused names; sometimes corrupted (release build only)"""
    n = R.randint(1, 4)
    lits = [l for v in range(1, n + 1) for l in (v, -v)]
    taut = R.random() < .1
    while True:
        base = [frozenset(R.sample(lits, R.randint(1, min(3, len(lits))))) for _ in range(R.randint(2, 4 * n + 3))]
        if not taut:
            base = [c for c in base if not any(-l in c for l in c)]
        if not base:
            continue
        known, how, todo = {}, {}, []
        for c in base:
            if c not in known:
                known[c] = None
                todo.append(c)
        while todo and frozenset() not in known:
            c = todo.pop(R.randrange(len(todo)))
            for d in list(known):
                for l in c:
                    if -l in d:
                        r = (c - {l}) | (d - {-l})
                        if not any(-x in r for x in r) and r not in known:
                            known[r] = (c, d, l)
                            todo.append(r)
        # one step that claims another clause than it derives, everything else being right
        lie = None
        derived = [c for c in known if known[c] and c]
        if derived and R.random() < .3:
            c = R.choice(derived)
            g, x = R.choice([max(c, key=abs), R.choice(sorted(c))]), R.choice(lits)
            lie = R.choice([c - {g}, (c - {g}) | {x}, (c - {g}) | {x}, c | {x}])
            if lie in known or any(-l in lie for l in lie):
                continue
            a, b, l = known[c]
            known = {x: k for x, k in known.items() if x in (a, b) or not k}
            if known[a] or known[b]:
                continue
            known[lie] = (a, b, l)
            todo = list(known)
            while todo and frozenset() not in known:
                c = todo.pop(R.randrange(len(todo)))
                for d in list(known):
                    for l in c:
                        if -l in d:
                            r = (c - {l}) | (d - {-l})
                            if not any(-x in r for x in r) and r not in known:
                                known[r] = (c, d, l)
                                todo.append(r)
        if frozenset() in known:
            break
    # clauses needed, in order
    need, order = set(), []

    def visit(c):
        if c in need:
            return
        need.add(c)
        if known[c]:
            visit(known[c][0])
            visit(known[c][1])
        order.append(c)
    visit(frozenset())
    # a derived clause used once as the left side of a resolution may be fused into the chain of its user
    uses = {}
    for c in order:
        if known[c]:
            for x in known[c][:2]:
                uses[x] = uses.get(x, 0) + 1
    fused = {c for c in order if known[c] and c != lie and uses.get(c) == 1 and R.random() < .6 and any(known[d] and known[d][0] == c for d in order)}

    def chain(c):
        a, b, l = known[c]
        return (chain(a) if a in fused else [(0, a)]) + [(l, b)]
    names, out, free, live = {}, [], list(range(0, 40)), []
    R.shuffle(free)
    left = {}
    steps = [c for c in order if c not in fused]
    for c in steps:
        if known[c]:
            for _, x in chain(c):
                left[x] = left.get(x, 0) + 1
    bad = lie is not None or R.random() < .5
    wrong = R.randrange(sum(1 for c in steps if known[c])) if bad and lie is None and any(known[c] for c in steps) else -1
    k = 0
    word = lambda c: " ".join(str(l) for l in R.sample(sorted(c), len(c)))
    for c in steps:
        nm = free.pop()
        if known[c]:
            ch = chain(c)
            if k == wrong:
                x = R.randrange(len(ch))
                y = R.random()
                if y < .3 and len(ch) > 1:
                    x = R.randrange(1, len(ch))
                    ch[x] = (R.choice([-ch[x][0], R.choice(lits)]), ch[x][1])
                elif y < .5 and len(ch) > 2:
                    del ch[R.randrange(1, len(ch))]
                elif y < .7 and names:
                    ch[x] = (ch[x][0], R.choice(list(names)))
                elif y < .85:
                    ch.append((R.choice(lits), R.choice(list(names))))
                else:
                    ch[-1], ch[0] = (ch[-1][0], ch[0][1]), (0, ch[-1][1])
            k += 1
            if R.random() < .1:
                out += ["start", "link 0 %d" % names[R.choice(list(names))], "cancel"]
            out.append("start")
            for l, x in ch:
                out.append("link %d %d" % (l, names[x]))
            d = c
            if wrong == k - 1 and R.random() < .3 and c:
                d = R.choice([c | {R.choice(lits)}, frozenset(R.sample(sorted(c), len(c) - 1))])
            out.append(("derive %d " % nm + word(d)).strip())
            for _, x in ch:
                left[x] = left.get(x, 0) - 1
        else:
            out.append("input %d " % nm + word(c))
        names[c] = nm
        if R.random() < .15:                         # clauses not used
            e = frozenset(R.sample(lits, R.randint(1, len(lits))))
            if e not in names and free and (taut or not any(-l in e for l in e)):
                o = free.pop()
                out.append("input %d " % o + word(e))
                if R.random() < .5:
                    out.append("drop %d" % o)
                    free.insert(R.randrange(len(free) + 1), o)
        if not bad:
            for x in [x for x in names if left.get(x, 0) == 0 and x != frozenset() and R.random() < .3]:
                out.append("drop %d" % names[x])     # its name may be used again
                free.append(names.pop(x))
    out += ["check", "check"] if bad else ["check", "print", "check"]
    return out, not bad and not taut


SWITCHES = ["-cb", "-lscb", "-gb", "-bl", "-lcm", "-ecm", "-bsc", "-bfc", "-max-approx-cost", "-sum-approx-cost", "-vsids-approx-cost"]
LONG = ["--chronological-backtracking", "--lazy-strong-chronological-backtracking", "--graph-backtracking", "--lazy-chunk-merging", "--eager-chunk-merging",
        "--backtrack-smallest-chunk", "--backtrack-first-chunk", "--delete-clauses", "-del", "--ignore-unused-variables", "-iuv", "--ignore-unused_variables",
        "--interactive", "-i", "--observing", "-o", "--check-invariants", "-c", "--save-state-on-interrupt", "-ssi", "--statistics", "-stat",
        "--live-statistics", "-live-stat", "--proof", "-bp", "--check-proof", "-cp", "--print-proof", "-pp", "--record-dependencies", "--restarts",
        "--backtrack-learned", "--use-max-approximate-cost-estimation", "--use-sum-approximate-cost-estimation", "--use-vsids-approximate-cost-estimation"]
NUMBER = ["--var-activity-decay", "--clause-elimination-multiplier", "--clause-activity-multiplier", "--clause-activity-threshold-decay", "--chunk-level-penalty",
          "--backtrack-possibilities-limit", "--sync-weight", "--timeout", "-t", "--conflict-limit", "-cl"]
NUMBERS = ["0", "1", "2", "3", "0.5", "0.25", "0.75", "7", "100", "1000", "12345", "1e3", ".5", "5e-1", "007"]
JUNK = ["junk", "--unknown", "-x", "-1", "yes", "ON", "1e999", "-", "--", "true"]
ENVTOK = ["--suppress-warning", "-sw", "--suppress-info", "-si", "--obsidian-template-folder", "--invariant-configuration-folder", "-icf", "/some/where", "on", "off"]
GROUPS = ["{--gui}", "{--gui\x1fx}", "{-commands\x1ff}"]


def fatal(toks):
    """is the clause activity threshold decay set outside its range?"""
    for i in range(len(toks) - 1):
        if toks[i] == NUMBER[3] and toks[i + 1] in NUMBERS:
            return not 0 <= float(toks[i + 1]) <= 1
    return False


def more_options(R, deep):
    subsets = []
    for mask in range(1 << len(SWITCHES)):
        t = [SWITCHES[j] for j in range(len(SWITCHES)) if mask >> j & 1]
        subsets.append(t)
    for j in range(0, len(subsets), 64):
        out = []
        for t in subsets[j:j + 64]:
            t = R.sample(t, len(t))
            out.append(("opt " + " ".join(t)).strip())
        yield out, True
    for _ in range(150 * (4 if deep else 1)):
        out = []
        for _ in range(8):
            t = []
            for _ in range(R.randint(0, 14)):
                x = R.random()
                if x < .45:
                    t.append(R.choice(SWITCHES + LONG))
                elif x < .65:
                    t += [R.choice(SWITCHES + LONG), R.choice(["on", "off", "off"])]
                elif x < .8:
                    t += [R.choice(NUMBER), R.choice(NUMBERS)]
                elif x < .86:
                    t.append(R.choice(NUMBER))
                elif x < .95:
                    t.append(R.choice(JUNK + NUMBERS + ["on", "off"]))
                else:
                    t += ["-o", R.choice(GROUPS)]
            if not fatal(t):
                out.append(("opt " + " ".join(t)).strip())
        yield out, True
    for v in ["2", "3", "7", "100", "1000", "12345", "1e3"]:
        yield ["opt " + " ".join(R.sample(SWITCHES, 3) + [NUMBER[3], v])], True
    for _ in range(60 * (4 if deep else 1)):
        out = []
        for _ in range(6):
            out.append(("env " + " ".join(R.choice(ENVTOK + ["-gb", "-t", "7", "junk", "file.cnf"]) for _ in range(R.randint(0, 9)))).strip())
        yield out, True
