"""State graphs of ArtTour, as TLC explores them, in the form the harness
walks: keys, ballast, and for every state its edges (signed key: successor).
States are numbered in breadth-first order from the start."""
import glob, hashlib, os, re, sys
from lib import *

DIR = os.path.join(SPECS, "tours")
NAMES = sorted(os.path.basename(f)[len("ArtTour_"):-4] for f in glob.glob(os.path.join(SPECS, "ArtTour_*.tla")))
EDGE = re.compile(r'^<<"E", (-?\d+), (-?\d+), (-?\d+)>>$')


def sources(name):
    h = hashlib.sha256()
    for f in ["CongeeMap", "Art", "ArtScan", "ArtMC", "ArtTour", "ArtTour_" + name]:
        h.update(open(os.path.join(SPECS, f + ".tla"), "rb").read())
    return h.hexdigest()


def make(name, meta):
    """Runs TLC on the instance; returns (text of the tour, TLC's result)."""
    r = tlc("ArtTour_%s.tla" % name, "ArtTour.cfg", meta, workers=1, timeout=900, extra=("-noGenerateSpecTE",))
    if "No error has been found" not in r["out"]:
        raise ToolError("ArtTour_%s fails its own check:\n%s" % (name, r["out"][-3000:]))
    flat = re.sub(r"\s+", " ", r["out"])
    ks = re.search(r'<< ?"KEYS", << (.*?) >> ?>>', flat).group(1)
    keys = [int.from_bytes(bytes(map(int, k.split(","))), "big") for k in re.findall(r"<<([\d, ]+)>>", ks)]
    ballast = [int(x) for x in re.search(r'<<"BALLAST", <<(.*?)>>', flat.replace('<< "BALLAST"', '<<"BALLAST"')).group(1).replace(" ", "").split(",") if x]
    start = int(re.search(r'<<"START", (-?\d+)>>', flat).group(1))
    out = {}
    for l in r["out"].splitlines():
        m = EDGE.match(l)
        if m:
            a, x, b = map(int, m.groups())
            out.setdefault(a, {})[x] = b
    num, order = {start: 0}, [start]
    for a in order:
        for x in sorted(out[a]):
            if out[a][x] not in num:
                num[out[a][x]] = len(order)
                order.append(out[a][x])
    if len(order) != r["distinct"]:
        raise ToolError("ArtTour_%s: %d states written, %d explored" % (name, len(order), r["distinct"]))
    ls = ["spec %s" % sources(name), "keys %s" % " ".join(map(str, keys)),
          ("ballast %s" % " ".join(map(str, ballast))).strip()]
    ls += [" ".join("%d:%d" % (x, num[out[a][x]]) for x in sorted(out[a])) for a in order]
    return "\n".join(ls) + "\n", r


def path(name):
    return os.path.join(DIR, name + ".tour")


def current(name):
    """Was the committed tour made from the present specification?"""
    try:
        with open(path(name)) as f:
            return f.readline().split()[1] == sources(name)
    except OSError:
        return False


if __name__ == "__main__":
    os.makedirs(DIR, exist_ok=True)
    for n in sys.argv[1:] or NAMES:
        t, r = make(n, "/tmp/tour_" + n)
        open(path(n), "w").write(t)
        print(n, r["distinct"], "states", sum(l.count(":") for l in t.splitlines()[3:]), "edges", "%.0f s" % r["secs"])
