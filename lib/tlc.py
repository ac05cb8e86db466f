"""Runs TLC."""
import json, os, re, shutil, subprocess, tempfile

CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


class TLCError(Exception):
    pass


def run(module, cfg, env=None, workers=8, args=(), timeout=600, heap="6g", props=()):
    """cfg: text of the configuration.  Returns (output, states generated, distinct states, violated)"""
    d = tempfile.mkdtemp(prefix="tlc")
    try:
        open(d + "/c.cfg", "w").write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m"] + list(props) + ["-cp", CP, "-DTLA-Library=" + SPEC, "tlc2.TLC",
               "-workers", str(workers), "-metadir", d + "/m", "-noGenerateSpecTE", "-config", d + "/c.cfg"] + list(args) + [SPEC + "/" + module + ".tla"]
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=d)
        except subprocess.TimeoutExpired as x:
            raise TLCError("TLC timed out: %s\n%s" % (module, (x.stdout or b"")[-2000:]))
        out = p.stdout
        m = re.findall(r"(\d[\d,]*) states generated(?: \([^)]*\))?, (\d[\d,]*) distinct", out)
        g, n = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        # 0: no error; 12: safety violation; 13: liveness violation
        if p.returncode not in (0, 12, 13):
            raise TLCError("TLC failed (%d) on %s\n%s\n%s" % (p.returncode, module, out[-5000:], p.stderr[-2000:]))
        return out, g, n, p.returncode != 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


def conflicts(out):
    """The records printed by the Conforms invariants."""
    res = []
    for line in out.splitlines():
        if line.startswith('"CONFLICT '):
            res.append(json.loads(json.loads(line)[9:]))
    return res


def scripts(out):
    """The behaviours printed by the generator specifications."""
    return [json.loads(json.loads(line)[7:]) for line in out.splitlines() if line.startswith('"SCRIPT ')]


def generate(module, constants, depth, num=None, seed=1, timeout=300):
    """Behaviours of a generator specification: all of them (num None) or num random ones."""
    c = "SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" + "".join("CONSTANT %s = %s\n" % x for x in sorted(constants.items()))
    args = () if num is None else ("-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed))
    out, g, n, bad = run(module, c, args=args, workers=8 if num is None else 1, timeout=timeout)
    if bad:
        raise TLCError("generator failed\n" + out[-3000:])
    return scripts(out), g, n
