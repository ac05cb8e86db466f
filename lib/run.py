"""Runs scenarios on the real solver and validates what it recorded against TraceSolver.tla."""
import concurrent.futures, json, os, subprocess, tempfile
import tlc

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:hard_rss_limit_mb=3000")


class DriverError(Exception):
    pass


def drive(exe, scenarios, cpu=20, jobs=8, work=None, max_events=6000):
    """scenarios: [(name, lines)] -> list of records in the same order"""
    res = [None] * jobs

    def one(j):
        mine = scenarios[j::jobs]
        if not mine:
            return []
        a, b = "%s/scn%d" % (work, j), "%s/rec%d" % (work, j)
        with open(a, "w") as f:
            for _, ls in mine:
                f.write("\n".join(ls) + "\n")
        p = subprocess.run([exe, a, b, str(cpu), str(max_events)], capture_output=True, text=True, env=ENV)
        if p.returncode != 0:
            raise DriverError("driver failed (%d): %s" % (p.returncode, p.stderr[-2000:]))
        recs = [json.loads(l) for l in open(b)]
        if len(recs) != len(mine):
            raise DriverError("driver wrote %d records for %d scenarios" % (len(recs), len(mine)))
        os.unlink(b)
        return recs
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        parts = list(ex.map(one, range(jobs)))
    out = [None] * len(scenarios)
    for j, p in enumerate(parts):
        out[j::jobs] = p
    return out


def cfg(watch):
    if watch is None:
        return "SPECIFICATION Spec\nINVARIANT Conforms\nCHECK_DEADLOCK FALSE\n"
    return "SPECIFICATION Spec\nINVARIANT Conforms\nCHECK_DEADLOCK FALSE\nCONSTANT Watch = {%s}\n" % ", ".join('"%s"' % w for w in sorted(watch))


def validate(records, watch, work, timeout=600, module="TraceSolver"):
    """-> (conflict or None, states)"""
    h, f = tempfile.mkstemp(suffix=".ndjson", dir=work)
    with open(h, "w") as h:
        for r in records:
            h.write(json.dumps(r) + "\n")
    try:
        out, gen, dist, bad = tlc.run(module, cfg(watch), {"TRACE": f}, timeout=timeout, workers=4)
    finally:
        os.unlink(f)
    c = tlc.conflicts(out)
    if bad and not c:
        raise tlc.TLCError("TLC reports an error without a conflict\n" + out[-4000:])
    return (c[0] if c else None), gen, dist
