"""Builds the drivers from /repo's working tree into /verif/build/<hash>/ (never into /repo)."""
import concurrent.futures, fcntl, glob, hashlib, os, shutil, subprocess, time

REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(ROOT, "harness")
BUILD = os.path.join(ROOT, "build")
FLAGS = {"d": ["-g", "-O1", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"],
         "r": ["-O2", "-DNDEBUG"]}


class BuildError(Exception):
    pass


def sources():
    return sorted(glob.glob(REPO + "/src/*.cpp") + glob.glob(REPO + "/src/*/*.cpp"))


def tree_hash():
    h = hashlib.sha256()
    files = sources() + glob.glob(REPO + "/src/*/*.hpp") + glob.glob(REPO + "/include/*.hpp") + [REPO + "/main.cpp"]
    files += glob.glob(HARNESS + "/*.cpp") + glob.glob(HARNESS + "/*.hpp") + glob.glob(HARNESS + "/stub/*.hpp") + [os.path.abspath(__file__)]
    for f in sorted(files):
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()[:16]


def _run(cmd):
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + p.stderr[-4000:])


def _inc():
    return ["-std=c++20", "-w", "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + HARNESS + "/stub", "-I" + REPO]


def _clean(keep):
    if not os.path.isdir(BUILD):
        return
    dirs = sorted((d for d in glob.glob(BUILD + "/*/") if os.path.basename(d[:-1]) != keep), key=os.path.getmtime)
    for d in dirs[:-3]:
        if time.time() - os.path.getmtime(d) > 3600:
            shutil.rmtree(d, ignore_errors=True)


def build(targets):
    """targets: list of (driver source name without .cpp, 'd'|'r', sources): sources is 'all' or a list of
    paths relative to /repo.  Returns {(driver, kind): path of the executable}."""
    h = tree_hash()
    out = os.path.join(BUILD, h)
    os.makedirs(out, exist_ok=True)
    _clean(h)
    res = {}
    with open(out + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        jobs, links = {}, []
        for drv, kind, srcs in targets:
            exe = "%s/%s-%s" % (out, drv, kind)
            res[(drv, kind)] = exe
            if os.path.exists(exe):
                continue
            objs = []
            files = sources() if srcs == "all" else [REPO + "/" + s for s in srcs]
            files = files + [HARNESS + "/" + drv + ".cpp" if drv != "napsat" else REPO + "/main.cpp"]
            for f in files:
                o = "%s/%s-%s.o" % (out, f.replace("/", "_")[1:-4], kind)
                objs.append(o)
                if not os.path.exists(o):
                    jobs[o] = ["g++"] + _inc() + FLAGS[kind] + ["-c", f, "-o", o + ".tmp"]
            links.append((exe, ["g++"] + FLAGS[kind] + objs + ["-o", exe + ".tmp", "-llzma", "-lbz2"]))
        # the longest compilations first
        order = sorted(jobs, key=lambda o: -os.path.getsize(jobs[o][-3]))

        def one(o):
            _run(jobs[o])
            os.rename(o + ".tmp", o)

        def link(x):
            _run(x[1])
            os.rename(x[0] + ".tmp", x[0])
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            list(ex.map(one, order))
            list(ex.map(link, links))
    return res


if __name__ == "__main__":
    t = time.time()
    print(build([(d, k, "all") for d in ("napdrv", "compdrv", "napsat") for k in "dr"]), time.time() - t)
