"""All sets of stored results within bounds, plotted by the repository's script with a recording drawing library (C29).

Every case is a description and a set of result directories, written to a scratch folder laid out like the checkout;
the script runs as it would from the command line. A reference computes what must be drawn. Listing a directory gives
its entries in an order that the case chooses.
"""
import argparse
import builtins
import contextlib
import io
import itertools
import json
import math
import os
import runpy
import shutil
import sys
import tempfile
import traceback
import types
from unittest import mock

ap = argparse.ArgumentParser()
ap.add_argument("--repo", default="/repo")
ap.add_argument("--tier", default="quick")
ap.add_argument("--part", default="0/1")
ap.add_argument("--only")
A = ap.parse_args()
PART, PARTS = map(int, A.part.split("/"))
SCRIPT = os.path.join(A.repo, "experiments", "plots", "plot.py")
MEAN_NOISE = 276

os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")

# ---- numpy may be missing: the script only wraps lists with it
try:
    import numpy  # noqa: F401
except ImportError:
    np = mock.MagicMock()
    np.array = np.asarray = list
    sys.modules["numpy"] = np


class Drawing:
    """Stands in for matplotlib and tabulate and records what is shown."""

    def __init__(self):
        self.done = []  # (file name or None, [(label, xs, ys)])
        self.lines = []
        self.tables = []

    def ax(self):
        a = mock.MagicMock()

        def plot(*args, **kw):
            if "label" in kw and len(args) >= 2:
                self.lines.append((kw["label"], [float(v) for v in args[0]], [None if v is None else float(v) for v in args[1]]))
            return [mock.MagicMock()]

        a.plot.side_effect = plot
        a.get_legend_handles_labels.side_effect = lambda: ([], [])
        return a

    def install(self):
        plt = mock.MagicMock()

        def subplots(*args, **kw):
            n = 1
            for v in [v for v in args if isinstance(v, int)] + [kw.get("nrows", 1), kw.get("ncols", 1)]:
                n *= v
            axes = [self.ax() for _ in range(n)]
            return mock.MagicMock(), axes[0] if n == 1 else tuple(axes)

        def end(name=None, *a, **kw):
            self.done.append((os.path.basename(str(name)) if name else None, self.lines))
            self.lines = []

        plt.subplots.side_effect = subplots
        plt.show.side_effect = lambda *a, **k: end()
        plt.savefig.side_effect = end
        lib = types.ModuleType("matplotlib")
        lib.pyplot = plt
        lib.use = lambda *a, **k: None

        class Params(dict):
            def __missing__(self, key):
                return lambda *a, **k: iter({"color": "c%d" % i} for i in itertools.count())

        lib.rcParams = Params()
        tab = types.ModuleType("tabulate")

        def tabulate(rows, headers=(), *a, **k):
            self.tables.append(([list(r) for r in rows], list(headers)))
            return "table"

        tab.tabulate = tabulate
        sys.modules.update({"matplotlib": lib, "matplotlib.pyplot": plt, "tabulate": tab})


real_listdir = os.listdir
order = [0]


def listdir(*a):
    names = sorted(real_listdir(*a))
    if order[0] == 0:
        return names
    if order[0] == 1:
        return names[::-1]
    k, out = order[0] - 2, []
    while names:  # the k-th permutation
        k, i = divmod(k, len(names))
        out.append(names.pop(i))
    return out


os.listdir = listdir

# ---- what a run leaves behind
ROOT = tempfile.mkdtemp(prefix="plots-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
PLOTS, OUT = os.path.join(ROOT, "plots"), os.path.join(ROOT, "orchestrator", "outputs")


def go_duration(ns):
    if ns < 1000:
        return "%dns" % ns
    num = lambda v: ("%.9f" % v).rstrip("0").rstrip(".")
    if ns < 10**6:
        return num(ns / 1e3) + "\u00b5s"
    if ns < 10**9:
        return num(ns / 1e6) + "ms"
    h, r = divmod(ns, 3600 * 10**9)
    m, r = divmod(r, 60 * 10**9)
    s = num(r / 1e9) + "s"
    return ("%dh%dm" % (h, m) if h else "%dm" % m if m else "") + s


def dppir_log(online, offline):
    t = "Creating server and accepting connections...\nOn port 3000\nClient connected!\nInput: 1; Noise: 3; Shuffled: 4\nTook 77ms\n"
    t += "Offline (simulated) time: 55ms\n" if offline is None else "Offline time: %dms\n" % offline if offline != "none" else ""
    for o in online if isinstance(online, list) else [online]:
        if o is not None:
            t += "Listening for queries...\nProgress 750000\nOnline time: %dms\nSending responses...\n" % o
    return t + "Done!\n"


def checklist_log(a, b):
    return ("INFO: Elapsed time: 0.199s, Critical Path: 0.00s\nlatency 12ms and counting\nServer 1 time: %s and bytes: 2187768\n"
            "Server 2 time: %s and bytes: 2180699\n" % (go_duration(a), go_duration(b)))


MS = [4881713, 11024, 0, 999, 1000, 61001, 1, 86400000, 250, 3333]
NS = [(555299403, 563026412), (5696595208, 5670492607), (812500, 12), (60 * 10**9, 61 * 10**9), (3723500 * 10**6, 59 * 10**9), (10**9, 999999999), (83 * 10**9 + 5 * 10**8, 10**7)]
FIELDS = ("tableSize", "parties", "parallelism", "queries")


def directory(exp, protocol, p, delta="0.000001"):
    if protocol == "DP-PIR":
        return "%s-%d-%d-%d-%d-%s-%s" % (exp, p["tableSize"], p["parties"], p["parallelism"], p["queries"], p.get("epsilon", "0.1"), p.get("delta", delta))
    return "%s-%d-%d" % (exp, p["tableSize"], p["queries"])


class Case:
    def __init__(self, name):
        self.name = name
        self.files = {}
        self.desc = []
        self.args = ["ui"]
        self.order = 0
        self.paper = None
        self.expect = []  # per description: None (must fail) or list of (label, xs, ys) or ("table", rows)

    def run(self, exp, protocol, p, i, online_only=False, lines=1, delta="0.000001", suffix=""):
        """Stores one run's logs; returns its measured times in seconds by mode."""
        d = directory(exp, protocol, p, delta)
        if protocol == "DP-PIR":
            on, off = MS[i % len(MS)], MS[(i + 3) % len(MS)]
            for party in range(p["parties"]):
                for s in range(p["parallelism"]):
                    self.files[d + "/party-%d-%d%s.log" % (party, s, suffix)] = dppir_log(
                        ([on] * lines if lines != 1 else on) if party == 0 else None if party == p["parties"] - 1 else on + 7 * party,
                        None if online_only else off if party == 0 else "none" if party == p["parties"] - 1 else off + 9 * party)
            for s in range(p["parallelism"]):
                self.files[d + "/client-%d.log" % s] = "Queries: 5\nResponses: 5\nOnline time: 123456ms\nDone!\n"
            return {"Online": on / 1000, "Offline": None if online_only else off / 1000}
        if protocol == "Checklist":
            a, b = NS[i % len(NS)]
            self.files[d + "/client.log"] = checklist_log(a, b)
            self.files[d + "/server0.log"] = self.files[d + "/server8.log"] = "Server 1 time: 99h0m0s and more\n"
            return {"Punc": max(a, b) / 1e9, "DPF": max(a, b) / 1e9}
        t = MS[(i + 5) % len(MS)]
        self.files[d + "/sealpir.log"] = "Main: done\nServer time: %dms\nClient time: 5ms\n" % t
        return {"SealPIR": t / 1000}


def describe(exp, kind, xaxis, series, xs, interp, graphs, **more):
    return dict({"experiment-name": exp, "type": kind, "axis": {"x": xaxis, "y": [list(s) for s in series]}, "tableSize": 5, "queries": "x", "x": list(xs),
                 "interpolate": {"%s-%s" % s: list(v) for s, v in zip(series, interp)},
                 "labels": {"x": "X", "y": "Y", "graphs": graphs, "title": "T"}, "ranges": {"x": [1, 2], "y": [1, 2]}, "yscale": "log"}, **more)


def label(s, graphs):
    return s[graphs] if s[0] == "DP-PIR" else {"Punc": "Checklist"}.get(s[1], s[1])


def complete(series, xaxis, xs, measured, interp):
    """The points of a series, None if the plot must be refused, 0 if nothing is promised."""
    known = [(x, measured[x]) for x in xs if measured.get(x) is not None]
    out = []
    for x in xs:
        if measured.get(x) is not None:
            out.append(measured[x])
        elif x not in interp:
            return None
        elif xaxis == "queries" and series[0] != "DP-PIR":
            if not known:
                return 0
            out.append(x * known[-1][1] / known[-1][0])
        elif series[0] == "DP-PIR" and xaxis in ("queries", "tableSize"):
            if len(known) < 2:
                return 0
            (x1, y1), (x2, y2) = known[-2:]
            out.append(y1 + (x - x1) * (y2 - y1) / (x2 - x1))
        else:
            return None
    return out


BASE = {"tableSize": 100, "parties": 2, "parallelism": 1, "queries": 50}
cases = []


def clutter(c, exp, k):
    """Results of other experiments and stray files, which must not matter."""
    other = dict(BASE, queries=10)
    if k & 1:
        c.run(exp + "0", "DP-PIR", other, 7)
        c.run(exp + "x", "Checklist", other, 5)
        c.run("a" + exp, "DP-PIR", other, 8)
        c.run("a" + exp, "SealPIR", other, 8)
    if k & 2:
        for d in sorted({f.split("/")[0] for f in c.files}):
            for f in ("config.txt", "xparty-0-0.log", "party-1-0.log.bak", "client.log.old", "old-sealpir.log", "server.log"):
                c.files.setdefault(d + "/" + f, "Online time: 31337ms\nOffline time: 31337ms\nServer time: 31337ms\nServer 1 time: 31337s and\n")


def simple(tag, exp, xaxis, series, xs, have, interp, graphs, clut=0, order=0, mode="ui", kind="simple-plot", first=0, online_only=(), base=BASE):
    c = Case("%s %s %s %s have=%s interp=%s graphs=%d clutter=%d order=%d %s%s" % (
        tag, xaxis, "+".join("/".join(s) for s in series), ",".join(map(str, xs)), ";".join("".join(map(str, h)) for h in have),
        ";".join(",".join(map(str, i)) for i in interp), graphs, clut, order, mode, " v%d" % first))
    lines, fail, loose = [], False, False
    runs = {}
    i = first
    for s, h in zip(series, have):
        for x, there in zip(xs, h):
            if there and (s[0], x) not in runs:
                i += 1
                runs[s[0], x] = c.run(exp, s[0], dict(base, **{xaxis: x}), i, online_only=x in online_only)
    for s, it in zip(series, interp):  # a run serves all series of its protocol
        lines.append((label(s, graphs), s, {x: t[s[1]] for (p, x), t in runs.items() if p == s[0]}, it))
    for n, (l, s, m, it) in enumerate(lines):
        ys = complete(s, xaxis, xs, m, it)
        fail |= ys is None
        loose |= ys == 0
        lines[n] = (l, list(xs), ys)
    if loose:
        return
    clutter(c, exp, clut)
    c.order = order
    more = {}
    if kind == "split-plot":
        more = {"top": lines[0][0], "bot": lines[1][0], "split": [1, 2]}
    c.desc.append((exp, describe(exp, kind, xaxis, series, xs, interp, graphs, **more)))
    c.args = [mode, exp]
    c.expect.append(None if fail else lines)
    cases.append(c)


DP_ON, DP_OFF, PUNC, DPF, SEAL = ("DP-PIR", "Online"), ("DP-PIR", "Offline"), ("Checklist", "Punc"), ("Checklist", "DPF"), ("SealPIR", "SealPIR")
DEEP = A.tier == "thorough"


def bits(n):
    return list(itertools.product((0, 1), repeat=n))


def subsets(xs):
    return [tuple(x for x, b in zip(xs, m) if b) for m in bits(len(xs))]


def generate():
    # one series, every set of stored runs and every set of points that may be extrapolated
    for xs in ((10, 100, 1000), (1, 7, 50, 10**6) if not DEEP else (1, 7, 50, 10**6, 10**10)):
        for s in (DP_ON, DP_OFF, PUNC, DPF, SEAL):
            for axis in ("queries", "tableSize", "parties", "parallelism"):
                if (s[0] != "DP-PIR" and axis in ("parties", "parallelism")) or (axis in ("parties", "parallelism") and len(xs) > 3):
                    continue
                points = xs if axis in ("queries", "tableSize") else (2, 3, 5)
                for h in bits(len(points)):
                    for it in subsets(points):
                        for o in (0, 1) if len(xs) == 3 or DEEP else (0,):
                            simple("one", "fig", axis, (s,), points, (h,), (it,), 0, order=o, first=sum(h) + len(it))
    # two series
    xs = (10, 100, 1000)
    for pair in ((DP_OFF, DP_ON), (DP_ON, DP_OFF), (PUNC, DP_ON), (DP_ON, DPF), (SEAL, DP_ON), (DP_ON, SEAL), (PUNC, SEAL)):
        g = 1 if pair[0][0] == pair[1][0] else 0
        for h1 in bits(3):
            for h2 in bits(3):
                for it in (xs, (), xs[2:]):
                    for clut, o in ((3, 0), (3, 1), (1, 0), (2, 1)):
                        simple("two", "fig", "queries", pair, xs, (h1, h2), (it, xs), g, clut=clut, order=o, mode="pdf" if o else "ui", first=clut)
    for h in bits(3):
        simple("three", "fig", "tableSize", (PUNC, DP_ON, SEAL), xs, (tuple([1] * 3), h, tuple([1] * 3)), ((), xs, ()), 0, clut=3, first=sum(h))
    # runs without an offline stage
    for only in subsets(xs):
        for it in (xs, ()):
            for axis in ("queries", "tableSize"):
                simple("onlyonline", "fig", axis, (DP_OFF, DP_ON), xs, ((1, 1, 1), (1, 1, 1)), (it, it), 1, online_only=only)
    # every order of listing five directories, and of the files of one
    for o in range(2, 2 + math.factorial(6)):
        simple("orders", "fig", "queries", (PUNC, DP_ON), (10, 100, 1000), ((1, 1, 1), (1, 1, 1)), ((), ()), 0, clut=0, order=o, first=o % 7)
    for o in range(2, 2 + 120):
        simple("orders", "fig", "queries", (DP_OFF, DP_ON), (10, 100), ((1, 1), (1, 1)), ((), ()), 1, clut=3, order=o)
    # all measured values at all points
    for v in range(10):
        for s in (DP_ON, DP_OFF, PUNC, DPF, SEAL):
            for clut in (0, 3):
                simple("values", "figure7", "queries", (s,), (1, 10, 100), ((1, 1, 1),), ((),), 0, clut=clut, first=v)
    # several servers of a party, all with the same times
    for n in (2, 4):
        for axis in ("queries", "parties"):
            simple("servers", "fig", axis, (DP_OFF, DP_ON), (2, 3, 4), ((1, 1, 1), (1, 1, 1)), ((), ()), 1, base=dict(BASE, parallelism=n))
    # privacy parameters as the orchestrator writes them
    for eps, delta in itertools.product(("0.1", "1", "0", "1e-7", "2.5e-10"), ("0.000001", "0", "1e-7", "1.5e-12")):
        for axis in ("queries", "parties"):
            for it in ((), (4,)):
                simple("privacy %s %s" % (eps, delta), "fig", axis, (DP_OFF, DP_ON), (2, 3, 4), ((1, 1, 1), (1, 1, 1)), (it, it), 1, clut=3, base=dict(BASE, epsilon=eps, delta=delta))
                if axis == "queries":
                    simple("privacy %s %s" % (eps, delta), "fig", axis, (PUNC, DP_ON, SEAL), (2, 3, 4), ((1, 1, 1),) * 3, (it,) * 3, 0, clut=1, base=dict(BASE, epsilon=eps, delta=delta))
    # split plots
    for h in bits(3):
        for pair in ((DP_OFF, DP_ON), (DP_ON, DP_OFF)):
            for mode in ("ui", "pdf"):
                for axis in ("queries", "parties"):
                    pts = xs if axis == "queries" else (2, 3, 4)
                    simple("split", "fig", axis, pair, pts, (h, h), ((), pts[2:]), 1, mode=mode, kind="split-plot", clut=3, first=sum(h))
    # a log that reports a time twice
    for lines in (0, 2):
        c = Case("lines=%d" % lines)
        c.run("fig", "DP-PIR", dict(BASE, queries=10), 1, lines=lines)
        c.desc.append(("fig", describe("fig", "simple-plot", "queries", (DP_ON,), (10,), ((),), 0)))
        c.args = ["ui", "fig"]
        c.expect.append(None)
        cases.append(c)
    # a log that reports no time
    for kind in ("simple-plot", "ratio-plot"):
        for s in (PUNC, SEAL):
            for text in ("", "Server time: \nServer 1 time: \n", "Killed\n"):
                if kind == "simple-plot":
                    simple("unreported", "fig", "queries", (s,), (10, 100), ((1, 1),), ((),), 0)
                else:
                    ratio(s, (1000, 5000), (1, 1), 500, 1000, 5000, 0, 0)
                c = cases[-1]
                c.name += " unreported %s %d" % (kind, len(text))
                name = sorted(f for f in c.files if f.startswith("fig-") and f.endswith("/client.log" if s == PUNC else "/sealpir.log"))[-1]
                c.files[name] = text
                c.expect = [None]
    # tables
    for attr in FIELDS:
        rows = (1, 2, 4, 8) if attr != "parties" else (2, 3, 4, 5)
        for h in bits(4):
            for cols in (("Offline", "Online"), ("Online", "Offline")):
                for mode in ("ui", "pdf"):
                    for clut in (0, 3):
                        c = Case("table %s have=%s %s %s clutter=%d" % (attr, "".join(map(str, h)), cols[0], mode, clut))
                        want = []
                        for i, (r, there) in enumerate(zip(rows, h)):
                            t = c.run("table2", "DP-PIR", dict(BASE, **{attr: r}), i + sum(h)) if there else {}
                            want.append([r] + [t.get(k) for k in cols])
                        clutter(c, "table2", clut)
                        c.run("table2", "Checklist", dict(BASE, queries=10), 1)
                        c.desc.append(("table2", {"experiment-name": "table2", "type": "table", "table": {"rows-attr": attr, "rows": list(rows), "cols-attr": "mode", "cols": list(cols)},
                                                  "labels": {"title": "T", "headers": ["A", "B"]}}))
                        c.args = [mode, "table2"]
                        c.order = len(cases) % 2
                        c.expect.append(("table", want))
                        cases.append(c)
    # ratios
    for b in (PUNC, DPF, SEAL):
        for xs in ((1000, 5000), (1000, 4000, 90000)):
            for h in bits(len(xs)):
                if not any(h):
                    continue
                for q, xq, xn in ((10000, 0, 0), (500, 1, 0), (70, 0, 1), (10**8, 1, 1)):
                    for o in (0, 1):
                        for v in range(3):
                            ratio(b, xs, h, q, xs[xq], xs[xn], o, v)
    # the paper's plots
    for f in sorted(real_listdir(os.path.join(A.repo, "experiments", "plots", "descriptions"))):
        name = f.rsplit(".", 1)[0]
        if f.endswith(".json") and os.path.exists(os.path.join(A.repo, "experiments", "orchestrator", "stored", f)):
            for v in range(10):
                for o in (0, 1):
                    paper(name, v, o, ("ui", "pdf")[v % 2])
    # several plots at once: each shows its own
    for mode in ("ui", "pdf"):
        for names in itertools.permutations(("fig", "fig1", "g")):
            several(mode, names, list(names))
        several(mode, ("fig", "g"), ["g", "fig"])
        several(mode, ("fig", "g"), ["g"])
    several("pdf", ("fig", "fig1", "g"), [])
    several("ui", ("fig",), [])


def ratios(b, xs, labels, noise, real, costs):
    """The lines of a ratio plot, None if the plot must be refused, 0 if nothing is promised."""
    known = [(x, k) for x, k in zip(xs, costs) if k is not None]
    for i, x in enumerate(xs):
        if costs[i] is None:
            if b != PUNC:
                return None
            costs[i] = known[-1][1] * math.sqrt(x / known[-1][0])
    lines = []
    for l in labels:
        k = float(l[:-1])
        den = [cost - k * real for cost in costs]
        if any(d == 0 for d in den):
            return 0
        lines.append((l, list(xs), [k * MEAN_NOISE * noise / d for d in den]))
    return lines


def paper(name, v, o, mode):
    """A description of the repository, and the results of the experiments that the orchestrator stores for it."""
    read = lambda *path: json.load(open(os.path.join(A.repo, "experiments", *path), encoding="utf-8"))
    d, c = read("plots", "descriptions", name + ".json"), Case("paper %s v%d order=%d %s" % (name, v, o, mode))
    t = {}
    for i, e in enumerate(read("orchestrator", "stored", name + ".json")):
        protocol = {"dppir": "DP-PIR", "checklist": "Checklist", "sealpir": "SealPIR"}[e["experimentType"]]
        q = dict(e, epsilon=e["name_"].split("-")[5], delta=e["name_"].split("-")[6]) if protocol == "DP-PIR" else e
        for m, y in c.run(name, protocol, q, i + v, online_only=e.get("mode") == "online").items():
            t.setdefault((protocol, m), {})[tuple(e.get(f) for f in FIELDS)] = y
    at = lambda s, f: {k[FIELDS.index(f)]: y for k, y in t.get(s, {}).items()}
    if d["type"] == "table":
        off, on = at(DP_OFF, d["table"]["rows-attr"]), at(DP_ON, d["table"]["rows-attr"])
        c.expect.append(("table", [[r] + [{"Offline": off, "Online": on}[k].get(r) for k in d["table"]["cols"]] for r in d["table"]["rows"]]))
    elif d["type"] == "ratio-plot":
        b = tuple(d["baseline"])
        dp = {k[3]: (k[0], y) for k, y in t[DP_ON].items()}
        (xn, yn), (q, (xq, yq)) = dp[1], next((q, v) for q, v in dp.items() if q != 1)
        costs = {k[0]: y / k[3] for k, y in t[b].items()}
        lines = ratios(b, d["x"], d["axis"]["y"], yn / (xn * MEAN_NOISE), yq / q, [costs.get(x) for x in d["x"]])
        if lines == 0:
            return
        c.expect.append(lines or [])
    else:
        lines = []
        for s in map(tuple, d["axis"]["y"]):
            ys = complete(s, d["axis"]["x"], d["x"], at(s, d["axis"]["x"]), d["interpolate"]["%s-%s" % s])
            lines.append((label(s, d["labels"]["graphs"]), d["x"], ys or []))
        c.expect.append(lines)
    c.desc.append((name, d))
    c.paper = name
    c.args, c.order = [mode, name], o
    cases.append(c)


def ratio(b, xs, h, q, xq, xn, o, v):
    c = Case("ratio %s %s have=%s q=%d@%d,%d order=%d v%d" % (b[1], ",".join(map(str, xs)), "".join(map(str, h)), q, xq, xn, o, v))
    noise = c.run("fig", "DP-PIR", dict(BASE, tableSize=xn, queries=1), v + 3)["Online"] / (xn * MEAN_NOISE)
    real = c.run("fig", "DP-PIR", dict(BASE, tableSize=xq, queries=q), v + 4, delta="0")["Online"] / q
    costs = []
    for i, (x, there) in enumerate(zip(xs, h)):
        costs.append(c.run("fig", b[0], dict(BASE, tableSize=x, queries=1000 + i), v + i)[b[1]] / (1000 + i) if there else None)
    labels = ["1x", "2x", "10x"]
    lines = ratios(b, xs, labels, noise, real, costs)
    if lines == 0:
        return
    c.desc.append(("fig", {"experiment-name": "fig", "type": "ratio-plot", "baseline": list(b), "axis": {"x": "tableSize", "y": labels}, "x": list(xs),
                           "labels": {"x": "X", "y": "Y", "title": "T"}, "ranges": {"x": [1, 2], "y": [1, 2]}}))
    clutter(c, "fig", 1)
    c.args = ["ui", "fig"]
    c.order = o
    c.expect.append(lines)
    cases.append(c)


def several(mode, names, args):
    c = Case("several %s %s: %s" % (mode, " ".join(names), " ".join(args)))
    want = {}
    for i, n in enumerate(names):
        t = {q: c.run(n, "DP-PIR", dict(BASE, queries=q), 2 * i + k) for k, q in enumerate((10, 100))}
        c.desc.append((n, describe(n, "simple-plot", "queries", (DP_OFF, DP_ON), (10, 100), ((), ()), 1)))
        want[n] = [(m, [10, 100], [t[10][m], t[100][m]]) for m in ("Offline", "Online")]
    c.args = [mode] + args
    c.expect = [want[n] for n in (args or sorted(names))]
    cases.append(c)


def near(a, b):
    if a is None or b is None:
        return a is b
    return math.isfinite(a) and abs(a - b) <= 1e-7 * max(1e-3, abs(a), abs(b))


def compare(want, got):
    if len(got) != len(want):
        return "lines %s instead of %s" % ([g[0] for g in got], [w[0] for w in want])
    got = {g[0]: g for g in got}
    for l, xs, ys in want:
        if l not in got:
            return "no line %s" % l
        _, gx, gy = got[l]
        if len(gx) != len(gy) or sorted(gx) != sorted(map(float, xs)):
            return "line %s at %s" % (l, gx)
        at = dict(zip(gx, gy))
        for x, y in zip(xs, ys):
            if not near(at[float(x)], y):
                return "line %s shows %s instead of %s at %s" % (l, at[float(x)], y, x)
    return None


def cell(v):
    try:
        return float(v)
    except (TypeError, ValueError):
        return None


def check(c):
    for d in (PLOTS, os.path.join(ROOT, "orchestrator")):
        if os.path.isdir(d):
            shutil.rmtree(d)
    os.makedirs(os.path.join(PLOTS, "descriptions"))
    os.makedirs(os.path.join(PLOTS, "figs"))
    os.makedirs(OUT)
    for n, d in c.desc:
        with open(os.path.join(PLOTS, "descriptions", n + ".json"), "w") as f:
            json.dump(d, f)
    for n, text in c.files.items():
        p = os.path.join(OUT, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8") as f:
            f.write(text)
    os.chdir(PLOTS)
    draw = Drawing()
    draw.install()
    order[0] = c.order
    sys.argv = [SCRIPT] + c.args
    failed = None
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            runpy.run_path(SCRIPT, run_name="__main__")
    except SystemExit as e:
        failed = None if e.code in (None, 0) else "exit %s" % e.code
    except Exception as e:  # noqa: BLE001: any failure of the script counts as a refusal
        failed = "%s: %s" % (type(e).__name__, e)
    finally:
        order[0] = 0
        os.chdir(ROOT)
    if len(c.expect) == 1 and c.expect[0] is None:
        if draw.done or draw.tables:
            return "a plot is shown although a point is missing: %s" % draw.done
        return None
    if failed and c.paper:
        return "%s cannot be plotted from the results of its stored experiments" % c.paper
    if failed:
        return "the script fails: %s" % failed
    if c.expect and c.expect[0][0] == "table":
        want = c.expect[0][1]
        if c.args[0] == "pdf":
            with open(os.path.join(PLOTS, "figs", c.args[1] + ".tex"), encoding="utf-8") as f:
                rows = [[w.strip().rstrip("\\").strip() for w in l.split("&")] for l in f.read().split("\n")]
            rows = [r for r in rows if len(r) == len(want[0]) and cell(r[0]) is not None]
        elif len(draw.tables) != 1:
            return "%d tables" % len(draw.tables)
        else:
            rows = draw.tables[0][0]
            if draw.tables[0][1][1:] != c.desc[0][1]["table"]["cols"]:
                return "headed %s" % draw.tables[0][1]
        if len(rows) != len(want):
            return "rows %s" % rows
        for r, w in zip(rows, want):
            if len(r) != len(w) or any(not near(cell(a), cell(b)) for a, b in zip(r, w)):
                return "row %s instead of %s" % (r, w)
        return None
    if len(draw.done) != len(c.expect):
        return "%d plots instead of %d" % (len(draw.done), len(c.expect))
    done = draw.done
    if c.args[0] == "pdf":
        names = c.args[1:] or sorted(n for n, _ in c.desc)
        done = sorted(done, key=lambda d: (names.index(d[0].rsplit(".", 1)[0]) if d[0] and d[0].rsplit(".", 1)[0] in names else -1))
        for n, d in zip(names, done):
            if d[0] is None or d[0].rsplit(".", 1)[0] != n:
                return "written as %s instead of %s" % (d[0], n)
    for w, d in zip(c.expect, done):
        r = compare(w, d[1])
        if r:
            return r
    return None


def main():
    generate()
    seen = {}
    for c in cases:
        n = seen[c.name] = seen.get(c.name, 0) + 1
        if n > 1:
            c.name += " #%d" % n
    bad = done = runs = refused = 0
    shown = {}
    try:
        for i, c in enumerate(cases):
            if A.only is not None:
                if c.name != A.only:
                    continue
            elif i % PARTS != PART:
                continue
            r = check(c)
            done += 1
            runs += len({f.split("/")[0] for f in c.files})
            refused += c.expect == [None]
            if r:
                bad += 1
                shown[r] = shown.get(r, 0) + 1
                if shown[r] == 1 and len(shown) <= 8:
                    print(json.dumps({"bad": r, "case": c.name}))
            elif i % 997 == 5:
                print(json.dumps({"sample": "%s: %d stored files, %s" % (c.name, len(c.files), "refused" if c.expect == [None] else "drawn as expected")}))
    finally:
        os.chdir("/")
        shutil.rmtree(ROOT)
    print(json.dumps({"counts": {"states": done, "transitions": runs, "refused": refused}}))
    sys.exit(1 if bad else 0)


try:
    main()
except Exception:  # noqa: BLE001
    traceback.print_exc()
    sys.exit(3)
