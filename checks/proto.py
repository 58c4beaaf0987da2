"""Protocol level properties: whole deployments in the virtual world."""
import itertools
import math
import re

from . import lib, world
from .lib import THOROUGH

COMPLETE, DEADLOCK, FRAMING, RESIDUAL, WRONG, NOISE, CONSERVE, TAG, BARRIER, PHASE, CRASH, HANG, SLICE, CHOP, CHANCE, MASK, TIME = (1 << i for i in range(17))
# Without a completed, well-formed run nothing can be said about any property: such a run counts against each.
BASE = COMPLETE | DEADLOCK | FRAMING | CRASH | HANG

NOISES = {0: "eps=0 delta=0", 1: "eps=4 delta=0.1", 2: "eps=2 delta=0.1", 3: "eps=1.5 delta=0.1", 4: "eps=1 delta=0.1"}
SMALL = {2: "b250", 3: "b400", 4: "b520", 5: "b700"}   # at least one cipher of that many layers fits


class Gen:
    def __init__(self, oracle):
        self.oracle, self.by = oracle, {}
        self.seen = set()

    def add(self, variant, P, S, db, noise, q, stage, lev, extra=""):
        q = ",".join(str(int(x)) for x in q)
        nz = NOISES[noise] if isinstance(noise, int) else noise
        line = f"P={P} S={S} db={db} {nz} q={q} stage={stage} lev={lev} oracle={self.oracle}" + (" " + extra if extra else "")
        if (variant, line) in self.seen:
            return
        self.seen.add((variant, line))
        self.by.setdefault(variant, []).append(line)

    def run(self, rep, budget):
        total = sum(len(v) for v in self.by.values())
        for v, lines in sorted(self.by.items()):
            world.run(rep, v, lines, max(20, budget * len(lines) / total) if budget else 600)


def scheds(P, S):
    n = S + P * S
    return ["fifo", "low", "high", "lifo"] + [f"slow:{i}" for i in range(n)] + [f"fast:{i}" for i in range(n)]


STAGES = ("all", "online", "offline")


def qlists(S, values, cap):
    out = [q for q in itertools.product(values, repeat=S) if sum(q) <= cap]
    return out


def parts(g, v, P, S, db, nz, q, st, lev, extra=""):
    """One deep exploration, divided among the processors."""
    for i in range(8):
        g.add(v, P, S, db, nz, q, st, lev, f"part={i}/8" + (" " + extra if extra else ""))


def deep(g, stages, one=True, many=True):
    """Interleavings and segmentations up to several deviations from the base schedule."""
    for st in stages:
        if one:
            parts(g, "b250", 2, 1, 2, 1, [2], st, 5 if THOROUGH else 4)
            parts(g, "b250", 2, 1, 3, 1, [6], st, 3 if THOROUGH else 2)
            parts(g, "b400", 3, 1, 2, 1, [2], st, 4 if THOROUGH else 3)
            parts(g, "b520", 4, 1, 3, 1, [2], st, 3 if THOROUGH else 2)
        if many:
            parts(g, "b250", 2, 2, 2, 1, [2, 1], st, 3 if THOROUGH or st == "online" else 2)
            parts(g, "b250", 2, 2, 3, 1, [0, 3], st, 3 if THOROUGH else 2, "hide=1")
            parts(g, "b400", 3, 2, 2, 1, [2, 1], st, 2)
            parts(g, "b250", 2, 3, 3, 0, [1, 0, 2], st, 2)
            if THOROUGH:
                parts(g, "b400", 3, 2, 2, 0, [1, 1], st, 3, "max=1500000")
                parts(g, "b250", 2, 3, 3, 0, [1, 2, 1], st, 3, "max=1500000")
                parts(g, "b250", 2, 4, 4, 0, [1, 0, 2, 1], st, 2, "max=1500000")


def single(g, stages=STAGES):
    """Deployments with one server per party."""
    # every key vector on tiny databases, every party count, all stages
    for P in (2, 3, 4):
        for db in (1, 2, 3):
            for q in range(0, 4):
                for st in stages:
                    for nz in (0, 1, 2):
                        if st == "offline" or (db > 2 and nz == 2):
                            g.add(SMALL[P], P, 1, db, nz, [q], st, 0)
                            continue
                        for keys in itertools.product(range(db), repeat=q):
                            g.add(SMALL[P], P, 1, db, nz, [q], st, 0, ("keys=" + ",".join(map(str, keys))) if q else "")
    # batch sizes across the (scaled) buffer boundaries, all base schedules and segmentations
    for P in (2, 3, 4, 5):
        for q in list(range(0, 24)) + [41, 42, 60]:
            for st in stages:
                g.add(SMALL[P], P, 1, 3, q % 3, [q], st, 0)
                g.add(SMALL[P], P, 1, 5, (q + 1) % 3, [q], st, 0, "seg=13 snd=100")
    for P in (2, 3):
        for st in stages:
            for sc in scheds(P, 1):
                for q in (1, 3, 6):
                    g.add(SMALL[P], P, 1, 2, 1, [q], st, 0, f"sched={sc} seg={[0, 1, 7][q % 3]}")
    # interleavings and segmentations by deviation bound
    for st in stages:
        g.add("b250", 2, 1, 2, 1, [2], st, 2)
        g.add("b250", 2, 1, 2, 1, [5], st, 1)
        g.add("b400", 3, 1, 2, 1, [2], st, 1)
        g.add("b520", 4, 1, 2, 0, [2], st, 1)
        g.add("b250", 2, 1, 2, 1, [1], st, -1, "dev=s")
    deep(g, stages, many=False)
    # seeds, sealed boxes, separate machines
    for i, seeds in enumerate(("0,0,0", "1,2,3", "-1,-2147483648,2147483647", "7,7,7")):
        for q in (4, 9):
            g.add("b400", 3, 1, 4, 2, [q], "all", 0, f"local={seeds} seed={i + 2} real={i % 2}")
    for P in (2, 3):
        g.add(SMALL[P], P, 1, 3, 1, [3], "all", 0, "real=1 ips=distinct")
    # real buffer sizes at their boundaries
    for q in (1128, 1129, 1130, 564, 565, 376, 377):
        for P in (1129, 564, 376):
            pass
    for P, qs in ((2, (563, 564, 565, 1129)), (3, (375, 376, 377)), (4, (282, 283))):
        for q in qs:
            for st in stages:
                if st != "online":
                    g.add("real", P, 1, 4, 1, [q], st, 0)
    if "online" in stages:
        for q in (2691, 2692, 2693, 11665, 11666, 11667, 23332):
            g.add("real", 2, 1, 7, 1, [q], "online", 0)
            g.add("real", 3, 1, 7, 2, [q], "online", 0, "seg=5000")
        g.add("real", 2, 1, 70000, 1, [3], "online", 0, "keys=0,65536,69999")
        g.add("real", 2, 1, 300, 4, [300], "all", 0)
        g.add("real", 3, 1, 256, 1, [257], "all", 0)
        g.add("real", 2, 1, 3, 0, [66000], "online", 0)
        g.add("real", 2, 1, 3, 0, [66000], "all", 0)
        g.add("real", 3, 1, 3, 1, [66000], "all", 0)


def parallel(g, stages=STAGES):
    """Deployments with several servers per party."""
    # all combinations of batch sizes, several party counts
    for P in (2, 3):
        for S, vals in ((2, range(0, 5)), (3, (0, 1, 2, 4)), (4, (0, 1, 3))):
            for q in qlists(S, vals, 9):
                for st in stages:
                    nz = (sum(q) + S) % 3
                    g.add(SMALL[P], P, S, S + sum(q) % 3, nz, q, st, 0)
    for S in (5, 6, 8):
        for st in stages:
            g.add("b250", 2, S, S + 3, 1, [i % 3 for i in range(S)], st, 0)
            g.add("b250", 2, S, S, 0, [2] * S, st, 0)
            g.add("b250", 2, S, S + 1, 2, [0] * (S - 1) + [3], st, 0)
    # database sizes against server counts (ranges) and noise levels
    for S in (2, 3, 4):
        for db in range(S, 2 * S + 4):
            for nz in (1, 2):
                g.add("b250", 2, S, db, nz, [1] * S, "all", 0)
                g.add("b250", 2, S, db, nz, [2, 0, 1, 1][:S], "online", 0)
    for P in (4, 5):
        for st in stages:
            g.add(SMALL[P], P, 2, 3, 1, [2, 3], st, 0)
    # larger batches over many (scaled) buffers
    for S, q in ((2, (25, 25)), (2, (40, 3)), (2, (0, 45)), (3, (20, 1, 9)), (3, (22, 22, 22))):
        for st in stages:
            g.add("b250", 2, S, 5, 1, q, st, 0)
            g.add("b400", 3, S, 5, 1, q, st, 0, "seg=17")
            g.add("b700", 2, S, 5, 4, q, st, 0, "snd=50")
    # base schedules, poll answers
    for S, q in ((2, (3, 2)), (2, (0, 4)), (3, (2, 1, 3))):
        for st in stages:
            for i, sc in enumerate(scheds(2, S)):
                for hide in (0, 1, 2, 3):
                    g.add("b250", 2, S, S + 1, 1, q, st, 0, f"sched={sc} hide={hide} seg={[0, 1, 9, 60][(i + hide) % 4]}")
    # interleavings
    for st in stages:
        g.add("b250", 2, 2, 2, 1, (2, 1), st, 1)
        g.add("b250", 2, 2, 3, 1, (1, 3), st, 1, "hide=1")
        g.add("b400", 3, 2, 2, 0, (2, 1), st, 1)
        g.add("b250", 2, 3, 3, 1, (1, 0, 2), st, 1)
    deep(g, stages, one=False)
    if "online" in stages:
        for i in range(8):
            g.add("b128", 2, 2, 2, 0, (1, 1), "online", 2, f"part={i}/8")
    # seeds
    for i, sh in enumerate(("0,0,0", "5,5,5", "-1,2147483647,-2147483648", "999,12345,7")):
        for q in ((4, 3), (9, 2)):
            g.add("b400", 3, 2, 4, 1, q, "all", 0, f"shared={sh} local={sh},{sh} seed={i + 2} real={i % 2}")
            g.add("b400", 3, 2, 4, 1, q, "online", 0, f"shared={sh} local={sh},{sh} seed={i + 2} ips=distinct")
    g.add("b250", 2, 2, 3, 1, (2, 2), "all", 0, "real=1 ips=distinct")
    # real buffer sizes
    for q in ((11667, 11665), (30000, 10), (2693, 2691)):
        if "online" in stages:
            g.add("real", 2, 2, 5, 1, q, "online", 0)
            g.add("real", 3, 2, 5, 2, q, "online", 0, "sched=low")
            g.add("real", 2, 3, 5, 1, (*q, 5), "online", 0, "sched=lifo")
    if "all" in stages:
        g.add("real", 2, 2, 5, 1, (1200, 600), "all", 0)
        g.add("real", 3, 2, 600, 4, (400, 380), "all", 0)
        g.add("real", 2, 2, 1000, 4, (10, 0), "all", 0)
        g.add("real", 2, 2, 3, 0, (66000, 5), "all", 0)
        g.add("real", 2, 2, 3, 1, (40000, 70000), "online", 0)


def large(g, stages=STAGES):
    """Deployments with many parties or many servers (256 and more wrap the numbers of parties and servers)."""
    B = "dev=x horizon=100000000"
    for st in stages:
        g.add("real", 20, 3, 4, 1, [1, 2, 0], st, 0, B)
        g.add("real", 50, 4, 5, 0, [1, 0, 2, 1], st, 0, B)
        g.add("real", 255, 1, 2, 0, [2], st, 0, B)
        g.add("real", 254, 2, 3, 0, [1, 0], st, 0, B)
        g.add("real", 5, 12, 13, 1, [i % 3 for i in range(12)], st, 0, B)
        g.add("b250", 2, 64, 66, 1, [i % 4 for i in range(64)], st, 0, B)
        g.add("b250", 2, 129, 130, 0, [i % 2 for i in range(129)], st, 0, B)
        g.add("b250", 2, 128, 128, 4, [3] + [0] * 127, st, 0, B)
        g.add("b400", 3, 40, 41, 0, [1] * 40, st, 0, B + " sched=lifo")
    if "online" in stages:
        g.add("b250", 2, 255, 256, 0, [i % 3 == 0 for i in range(255)], "online", 0, B)
    if THOROUGH:
        for st in stages:
            for S in (200, 254, 255):
                g.add("b250", 2, S, S + 1, 0, [1] * S, st, 0, B)
                g.add("b250", 2, S, 2 * S + 1, 4, [i % 2 for i in range(S)], st, 0, B)
                g.add("b400", 3, S, S, 0, [1] * S, st, 0, B)
            g.add("real", 100, 5, 6, 0, [2] * 5, st, 0, B)
            g.add("b700", 5, 60, 61, 0, [2] * 60, st, 0, B)


def sampled(g):
    """Noise drawn from the distribution (build variant), driven by scripted random values."""
    R = 2147483647
    tapes = {"mid": [R // 2], "lowhigh": [0, R], "mix": [R // 4, R // 2, 3 * R // 4, R, 1, 0, R // 3],
             "spread": [int(R * x / 11) for x in (1, 9, 3, 7, 5, 10, 2, 8, 4, 6)]}
    for name, t in tapes.items():
        tape = ",".join(str(x) for x in t)
        for P, S, q in ((2, 1, (3,)), (3, 1, (2,)), (2, 2, (2, 3)), (3, 2, (3, 1)), (2, 3, (1, 0, 2)), (4, 2, (1, 1))):
            for st in ("all", "online", "offline"):
                for nz in (1, 2, 4):
                    for db in (S, 2 * S + 1, 7):
                        g.add(SMALL[P] + "+sample", P, S, db, nz, q, st, 0, f"sample=1 rand={tape}")


def c01(rep):
    g = Gen(BASE | RESIDUAL | WRONG)
    single(g)
    B = "dev=x horizon=100000000"
    for P in (17, 64, 127, 128, 129, 254, 255):
        for st in ("all", "online"):
            g.add("real", P, 1, 4, P % 2 if st == "online" or P < 100 else 0, [3], st, 0, B)
    g.run(rep, 0)


def c02(rep):
    g = Gen(BASE | RESIDUAL | WRONG)
    g.add("real", 2, 2, 5, 0, [134000, 134000], "all", 0)   # more than 2^16 messages from one sibling to another
    g.add("real", 2, 2, 5, 0, [140000, 140000], "online", 0)
    g.add("real", 3, 2, 5, 0, [300000, 100], "online", 0)
    parallel(g)
    large(g)
    g.run(rep, 0)


def c03(rep):
    g = Gen(BASE | RESIDUAL)
    # start orders and relative speeds
    for P, S in ((2, 1), (3, 1), (4, 1), (2, 2), (3, 2), (2, 3)):
        for st in STAGES:
            for sc in scheds(P, S):
                for q in ([2] * S, [0] * S, [5] + [0] * (S - 1), [0] * (S - 1) + [7]):
                    g.add(SMALL[P], P, S, S + 1, 1, q, st, 0, f"sched={sc}")
                    g.add(SMALL[P], P, S, S + 1, 0, q, st, 0, f"sched={sc} hide=1 seg=30")
    # a process is started, or goes on, only after all others have waited for it for a very long time
    for P, S in ((2, 1), (3, 1), (2, 2), (2, 3)):
        for st in STAGES:
            for n in range(S + P * S):
                for op in list(range(0, 40)) + [50, 60, 80, 100]:
                    g.add(SMALL[P], P, S, S + 1, 1, [3] * S, st, 0, f"late={n}:{op}:{4000 if op == 0 else 300}")
    # interleavings
    for st in STAGES:
        g.add("b250", 2, 1, 2, 1, [2], st, 2)
        g.add("b250", 2, 1, 2, 1, [1], st, -1, "dev=s")
        g.add("b250", 2, 2, 2, 0, [0, 0], st, 2)
        g.add("b400", 3, 2, 2, 0, [1, 1], st, 1)
    deep(g, STAGES)
    # connections that hold a bounded amount of unread data
    for v, size in (("b250", 250), ("b400", 400), ("b128", 128)):
        for P in (2, 3):
            if v == "b250" and P == 3:
                continue
            for S, qs in ((1, ((30,), (80,), (500,))), (2, ((30, 30), (60, 5), (0, 70), (400, 450))), (3, ((20, 20, 20), (50, 0, 3), (400, 420, 390)))):
                for q in qs:
                    for st in (("online",) if v == "b128" else STAGES):
                        for k in (3, 4, 6):
                            g.add(v, P, S, 5, 2, q, st, 0, f"cap={k * size}")
                            g.add(v, P, S, 5, 0, q, st, 0, f"cap={k * size} sched={'low' if k == 3 else 'lifo'}")
                    for i, sc in enumerate(scheds(P, S)):
                        g.add(v, P, S, 5, 1, q, "online", 0, f"cap={3 * size} sched={sc}")
                        if v != "b128":
                            g.add(v, P, S, 4, 2, q, "all", 0, f"cap={3 * size} sched={sc}")
    for st in STAGES:
        g.add("b250", 2, 2, 3, 1, (8, 8), st, 1, "cap=750 dev=s")
    g.add("b128", 2, 2, 3, 1, (30, 25), "online", 1, "cap=400 dev=s")
    # more than 2^16 messages from one sibling to another
    g.add("real", 2, 2, 5, 0, [140000, 140000], "online", 0)
    g.add("real", 3, 2, 5, 0, [300000, 100], "online", 0)
    # real sizes: larger batches than a connection holds
    for S, q in ((1, (30000,)), (2, (40000, 20000)), (3, (20000, 20000, 100)), (1, (200000,)), (2, (300000, 280000)), (3, (200000, 210000, 190000))):
        g.add("real", 2, S, 5, 1, q, "online", 0, "cap=450000")
        g.add("real", 3, S, 5, 1, q, "online", 0, "cap=450000 sched=low")
    for S, q in ((1, (1500,)), (2, (2000, 900)), (3, (900, 700, 800)), (2, (25000, 22000)), (3, (24000, 24000, 20000))):
        g.add("real", 2, S, 50, 4, q, "all", 0, "cap=450000")
    g.run(rep, 0)


def c05(rep):
    g = Gen(BASE | NOISE | CONSERVE | SLICE)
    # histogram at every hop: all (db, servers, noise, batch) combinations of a grid
    for P in (2, 3, 4):
        for S in (1, 2, 3, 4):
            for db in sorted({S, S + 1, 2 * S - 1 if S > 1 else 2, 2 * S + 1, 3 * S + 2}):
                for nz in (0, 1, 2, 3, 4):
                    for q in ([1] * S, [0] * S, [3] + [0] * (S - 1), [0] * (S - 1) + [5], list(range(S))):
                        for st in STAGES:
                            if P == 4 and (nz in (2, 3) or S == 3):
                                continue
                            g.add(SMALL[P], P, S, db, nz, q, st, 0, "" if (db + nz) % 2 else "seg=19")
    for S in (5, 7):
        for db in (S, S + 1, 2 * S - 1, 3 * S + 1):
            g.add("b250", 2, S, db, 2, [i % 4 for i in range(S)], "all", 0)
            g.add("b250", 2, S, db, 1, [i % 2 for i in range(S)], "online", 0)
    for eps, delta in ((0.5, 0.001), (0.1, 0.1), (8, 0.5), (1, 0.99), (100, 0.0001), (3, 1)):
        for S in (1, 2):
            for st in STAGES:
                g.add("real", 2, S, 3, f"eps={eps} delta={delta}", [2] * S, st, 0)
    for eps in (0.01, 0.001, 0.0001):
        for S in (1, 2, 3):
            for st in STAGES:
                if eps > 0.0005 or st == "online":
                    g.add("real", 2, S, 3, f"eps={eps} delta=0.1", [2] * S, st, 0)
                    g.add("real", 3, S, 4, f"eps={eps} delta=0.1", [2] * S, "online", 0)
    g.add("real", 2, 1, 300, 4, [5], "all", 0)
    g.add("real", 2, 2, 301, 4, [5, 0], "all", 0)
    g.add("real", 3, 2, 1001, 4, [2700, 3], "online", 0)
    g.add("real", 2, 3, 20000, 1, [5, 0, 2], "online", 0)
    g.add("real", 2, 1, 70000, 1, [3], "online", 0)    # keys, and counts, beyond 16 bits
    g.add("real", 2, 2, 132000, 1, [3, 2], "online", 0)
    g.add("real", 2, 1, 3, "eps=0.00011 delta=0.1", [3], "online", 0)
    g.add("real", 3, 2, 5, "eps=0.00011 delta=0.1", [3, 0], "online", 0)
    # interleavings
    for st in STAGES:
        g.add("b250", 2, 1, 3, 1, [2], st, 1)
        g.add("b250", 2, 2, 3, 1, [2, 1], st, 1)
        g.add("b400", 3, 2, 3, 1, [1, 1], st, 1)
        for sc in scheds(2, 3):
            g.add("b250", 2, 3, 4, 2, [2, 0, 3], st, 0, f"sched={sc} hide=1")
    deep(g, STAGES)
    sampled(g)
    g.run(rep, 0)


def c13(rep):
    g = Gen(BASE | BARRIER)
    barrier_like(g)
    g.run(rep, 0)


def c14(rep):
    g = Gen(BASE | PHASE | CONSERVE)
    barrier_like(g)
    g.run(rep, 0)


def c28(rep):
    g = Gen(BASE | TIME)
    barrier_like(g)
    for P, S in ((2, 1), (3, 1), (5, 1), (2, 2), (3, 2), (2, 5)):
        for st in STAGES:
            for tick in (0, 1, 7, 3000000, 2000000000):    # milliseconds that each step takes
                for nz in (0, 2):
                    g.add(SMALL[P], P, S, S + 1, nz, [2] * S, st, 0, f"tick={tick}")
                    g.add(SMALL[P], P, S, S, nz, [0] * (S - 1) + [3], st, 0, f"tick={tick} seg=9")
    g.run(rep, 0)


def barrier_like(g):
    for P, S in ((2, 1), (3, 1), (4, 1), (2, 2), (3, 2), (2, 3), (2, 4)):
        for st in STAGES:
            for i, sc in enumerate(scheds(P, S)):
                for q in ([2] * S, [4] + [0] * (S - 1), [0] * (S - 1) + [3], [9] + [1] * (S - 1)):
                    g.add(SMALL[P], P, S, S + 1, i % 3, q, st, 0, f"sched={sc} seg={(0, 11)[i % 2]}")
                g.add(SMALL[P], P, S, S + 1, 1, [25] + [3] * (S - 1), st, 0, f"sched={sc}")
                g.add("real", P, S, S, i % 3, [5] * S, st, 0, f"sched={sc}")
    # Siblings that happen to send each other nothing: only the barriers keep a slow one's batch together with theirs.
    for P, S in ((2, 2), (3, 2), (2, 3)):
        for st in STAGES:
            for seed in range(8 if S == 2 else 16):
                for sc in ["fifo"] + [f"slow:{S + i}" for i in range(P * S)]:
                    g.add(SMALL[P], P, S, S, 0, [1] * S, st, 0, f"sched={sc} shared={','.join([str(seed)] * P)}")
    for st in STAGES:
        g.add("b250", 2, 1, 2, 1, [2], st, 2)
        g.add("b400", 3, 1, 2, 1, [2], st, 1)
        g.add("b250", 2, 2, 2, 1, [2, 1], st, 1)
        g.add("b250", 2, 2, 2, 0, [5, 0], st, 1)
        g.add("b400", 3, 2, 2, 0, [1, 2], st, 1)
        g.add("b250", 2, 3, 3, 0, [1, 0, 2], st, 1)
    deep(g, STAGES)
    g.add("real", 2, 1, 4, 1, [3000], "online", 0)
    g.add("real", 2, 2, 4, 1, [3000, 12000], "online", 0, "seg=4000")
    g.add("real", 2, 2, 4, 1, [600, 700], "all", 0)


def c15(rep):
    g = Gen(BASE | TAG | CONSERVE | WRONG)
    for P in (2, 3, 4):
        for S, vals in ((1, range(0, 6)), (2, range(0, 5)), (3, (0, 1, 3)), (4, (0, 2))):
            for q in qlists(S, vals, 9):
                for nz in (0, 1, 2, 4):
                    if P == 4 and nz == 2:
                        continue
                    for db in (S, S + 2):
                        for st in ("all", "offline"):
                            g.add(SMALL[P], P, S, db, nz, q, st, 0)
    for P, S, db, nz, q in ((2, 1, 300, 4, [300]), (3, 1, 70, 4, [700]), (3, 2, 300, 4, [300, 5]), (4, 2, 130, 4, [7, 600]),
                            (2, 3, 100, 4, [400, 0, 1000]), (5, 1, 40, 4, [100]), (2, 8, 16, 2, [1, 2, 3, 4, 5, 6, 7, 8]), (3, 5, 12, 1, [9, 1, 0, 3, 3]),
                            (2, 1, 3, 1, [70000]), (2, 2, 5, 1, [66000, 5])):
        g.add("real", P, S, db, nz, q, "all", 0)
    g.add("real", 2, 1, 3, "eps=0.00021 delta=0.1", [2], "offline", 0)    # more than 2^16 noise queries of one server
    g.add("real", 2, 2, 6, "eps=0.00021 delta=0.1", [0, 2], "offline", 0)
    for st in ("all", "offline"):
        g.add("b250", 2, 2, 2, 1, [2, 1], st, 1)
        g.add("b400", 3, 2, 2, 1, [1, 2], st, 1)
        g.add("b400", 3, 1, 2, 1, [2], st, 1)
        for sc in scheds(2, 3):
            g.add("b250", 2, 3, 4, 2, [2, 0, 3], st, 0, f"sched={sc} hide=1")
    deep(g, STAGES)
    sampled(g)
    g.run(rep, 0)


def c18(rep):
    """Every participant of many deployments plays its part in precisely the requested stages, or the others would notice."""
    g = Gen(BASE | RESIDUAL | WRONG | PHASE)
    for P in (2, 3, 4, 5):
        for S in (1, 2, 3, 4, 5):
            for st in STAGES:
                for q in ([2] * S, [0] * S):
                    g.add(SMALL[P], P, S, S + 1, 1, q, st, 0)
                g.add(SMALL[P], P, S, S + 2, 0, [1] * S, st, 0, "ips=distinct sched=lifo")
    for P, S in ((2, 9), (3, 7), (2, 17)):
        for st in STAGES:
            g.add(SMALL[P], P, S, S + 1, 0, [1] * S, st, 0)
    for st in STAGES:
        g.add("b250", 2, 255 if st == "online" else 130, 256, 0, [1] * (255 if st == "online" else 130), st, 0, "dev=x horizon=100000000")
        g.add("real", 255, 1, 2, 0, [1], st, 0, "dev=x horizon=100000000")
    g.run(rep, 0)


def c19(rep):
    mask = WRONG | CRASH
    deps = []   # (variant, line without crash)
    def dep(v, P, S, db, nz, q, st, extra=""):
        q = ",".join(str(int(x)) for x in q)
        deps.append((v, f"P={P} S={S} db={db} {NOISES[nz]} q={q} stage={st} {extra}".strip()))
    for st in STAGES:
        dep("b250", 2, 1, 2, 1, [2], st)
        dep("b250", 2, 1, 2, 0, [5], st, "seg=40")
        dep("b250", 2, 1, 2, 2, [1], st, "sched=low")
        dep("b400", 3, 1, 2, 1, [2], st)
        dep("b520", 4, 1, 2, 0, [2], st)
        dep("b250", 2, 2, 2, 1, [2, 1], st)
        dep("b250", 2, 2, 3, 0, [3, 0], st, "sched=lifo")
        dep("b400", 3, 2, 2, 1, [1, 2], st)
        dep("b250", 2, 3, 3, 0, [1, 2, 0], st)
        dep("real", 2, 1, 2, 1, [3], st)
        dep("real", 2, 2, 2, 1, [3, 3], st)
        dep("real", 2, 2, 2, 1, [3, 3], st, "seg=30 snd=45")
        dep("b250", 2, 1, 3, 1, [22], st)
        dep("b250", 2, 2, 3, 1, [12, 9], st)
        if THOROUGH:
            dep("b400", 3, 3, 3, 1, [2, 1, 2], st)
            dep("b520", 4, 2, 2, 1, [2, 2], st)
            for sc in scheds(2, 2):
                dep("b250", 2, 2, 2, 1, [2, 3], st, f"sched={sc} seg=33")
    # first pass: how many operations does every process perform
    by = {}
    for v, l in deps:
        by.setdefault(v, []).append(l)
    points = 0
    for v, ls in sorted(by.items()):
        rows = world.run(rep, v, [f"{l} lev=0 oracle={BASE | WRONG | RESIDUAL}" for l in ls], 300)
        lines = []
        for i, l in enumerate(ls):
            for n, cnt in enumerate(rows[i].get("nops", [])):
                for op in range(1, cnt + 1):
                    for drop in (0, 1):
                        points += 1
                        lines.append(f"{l} lev=0 oracle={mask} crash={n}:{op}:{drop}")
        world.run(rep, v, lines, 600)
    # crashes combined with scheduling and delivery deviations
    for v, d, lev in (("b250", f"P=2 S=1 db=2 {NOISES[1]} q=2", 3 if THOROUGH else 2),
                      ("b400", f"P=3 S=1 db=2 {NOISES[0]} q=2", 2 if THOROUGH else 1),
                      ("b250", f"P=2 S=2 db=2 {NOISES[0]} q=2,1", 2 if THOROUGH else 1)):
        rows = world.run(rep, v, [f"{d} stage={st} lev=0 oracle={BASE}" for st in STAGES], 60)
        lines = []
        for i, st in enumerate(STAGES):
            for n, cnt in enumerate(rows[i].get("nops", [])):
                for op in range(1, cnt + 1):
                    points += 1
                    lines.append(f"{d} stage={st} lev={lev} oracle={mask} crash={n}:{op}:1 eof=40")
        world.run(rep, v, lines, 600)
    rep.add(evaluations=rep.cov["executions"], distinct_nontrivial=points)
    rep.cov["rule"] = ("every (process, operation index, in-flight data delivered or lost) of every listed deployment is one crash point; "
                       "all are distinct and each leaves at least one process alive")


def c20(rep):
    # (1) memory errors: address sanitizer inside the virtual world
    g, big = Gen(CRASH), []
    for v in ("b250", "b400", "b520", "real"):
        for P in (2, 3, 4):
            if P > {"b250": 2, "b400": 3, "b520": 4, "real": 4}[v]:
                continue
            for S in (1, 2, 3):
                for st in STAGES:
                    for q in ([0] * S, [1] * S, [3] + [0] * (S - 1), [0] * (S - 1) + [7], [5] * S, [23] + [2] * (S - 1)):
                        for nz in (0, 1):
                            g.add(v + "+asan", P, S, S + 1, nz, q, st, 0, "seg=27" if sum(q) % 2 else "")
    for q in (20, 21, 40, 41, 4, 5, 8, 9):
        for S in (1, 2):
            for st in STAGES:
                g.add("b250+asan", 2, S, 3, 2, [q] * S, st, 0, "snd=31")
    for st in STAGES:
        g.add("b250+asan", 2, 1, 2, 1, [2], st, 1)
        g.add("b250+asan", 2, 2, 2, 1, [2, 1], st, 1, "max=400")
        g.add("real+asan", 2, 2, 5, 1, [600, 1200], st, 0)
        g.add("real+asan", 3, 1, 5, 1, [400], st, 0)
        g.add("b250+asan", 2, 4, 5, 1, [2, 0, 1, 4], st, 0)
        g.add("b250+asan", 2, 5, 6, 1, [2, 0, 1, 4, 1], st, 0)
        g.add("b250+asan", 2, 2, 3, 1, [2, 3], st, 0, "real=1")
    g.add("real+asan", 2, 1, 5, 1, [11667], "online", 0)
    g.add("real+asan", 2, 2, 5, 1, [11667, 12000], "online", 0)
    # noise that cannot be counted (65536 rows with 65536 queries each): the party has to stop
    for st in STAGES:
        for S in (1, 2):
            big.append(f"P=2 S={S} db={65536 * S} eps=0.0000702683 delta=0.1 q={','.join(['1'] * S)} stage={st} lev=0 oracle={CRASH | WRONG} eof=20")
    # (2) dependence on memory contents
    h = Gen(CRASH | CHANCE)
    for v in ("b250", "b400", "real"):
        for P in (2, 3):
            if P > {"b250": 2, "b400": 3, "real": 3}[v]:
                continue
            for S in (1, 2, 3):
                for st in STAGES:
                    for q in ([0] * S, [1] * S, [3] + [0] * (S - 1), [0] * (S - 1) + [7], [5] * S, [23] + [2] * (S - 1)):
                        for nz in (0, 1, 2):
                            h.add(v, P, S, S + 1, nz, q, st, 0, "fill=1")
    for st in STAGES:
        h.add("b250", 2, 1, 2, 1, [2], st, 1, "fill=1")
        h.add("b250", 2, 2, 2, 1, [2, 1], st, 1, "fill=1")
    # buffers without slack, one read split at every interesting place
    for v in ("b248", "b312"):
        for st in STAGES:
            for q in (9, 30, 60):
                g.add(v + "+asan", 2, 1, 3, 1, [q], st, 1, "dev=r max=6000")
            for seg in (5, 11, 51, 100, 123):
                g.add(v + "+asan", 2, 1, 3, 1, [60], st, 0, f"seg={seg}")
                g.add(v + "+asan", 2, 2, 3, 1, [30, 20], st, 0, f"seg={seg}")
            g.add(v + "+asan", 2, 2, 3, 1, [12, 9], st, 1, "dev=rp max=3000")
    g.run(rep, 0)
    h.run(rep, 0)
    world.run(rep, "b250+asan", big, 300)
    # automatic variables with different initial contents
    for v in ("b250", "b400"):
        P = 2 if v == "b250" else 3
        lines = []
        for S in (1, 2, 3):
            for st in STAGES:
                for q in ([0] * S, [1] * S, [3] + [0] * (S - 1), [0] * (S - 1) + [7], [5] * S, [23] + [2] * (S - 1)):
                    for nz in (0, 1, 2):
                        lines.append(f"P={P} S={S} db={S + 1} {NOISES[nz]} q={','.join(map(str, q))} stage={st} lev=0 oracle={BASE | WRONG} obs=wire")
        res = {}
        for o in ("", "+avz", "+avp"):
            before = len(rep.violations)
            res[o] = world.run(rep, v + o, lines, 300)
            if len(rep.violations) > before:
                return
        for i, l in enumerate(lines):
            d = {o: r[i]["dist"]["wire"]["#digest"] for o, r in res.items() if r.get(i, {}).get("complete")}
            if len(set(d.values())) > 1:
                rep.violate(f"messages depend on the initial content of local variables in '{l}'",
                            dict(kind="wire", variants=[v + o for o in d], scenario=l))
                break


def replay_wire(r, rep):
    d = {v: world.run(rep, v, [r["scenario"]], 60)[0]["dist"]["wire"]["#digest"] for v in r["variants"]}
    return len(set(d.values())) > 1, str(d)


def c04(rep):
    prog = (["//DPPIR:main"], "sock_driver.cc")
    mask = CHOP | RESIDUAL | CRASH
    by = {}

    def add(v, p, lev, extra=""):
        by.setdefault(v, []).append(f"prog={p} lev={lev} oracle={mask} {extra}".strip())

    # two endpoints: every split of every read and send, every message mix
    for v in ("b128", "b250"):
        for cs in (100, 60, 128):
            # one phase at a time, every count across buffer boundaries, uniform segmentations of every length
            for n in range(0, 24):
                add(v, f"pair:2:{cs}:c{n}:k{n}:y:q{n}:y:r{n}", 0)
                add(v, f"pair:2:{cs}:k{n}:q{n}:r{n}:c1:y", 0, "sched=low")
                add(v, f"pair:2:{cs}:K{n}:Q{n}:R{n}:k3:q3:r3", 0, "sched=high")
                add(v, f"pair:2:{cs}:q{n}:k2:q1:k{n}:r{n}:r2", 0, "sched=lifo seg=33")
            for seg in list(range(1, 130)):
                for n in (3, 11):
                    add(v, f"pair:2:{cs}:c{n}:k{n}:y:q{n}:r{n}:q2:r2", 0, f"seg={seg}")
                    add(v, f"pair:2:{cs}:c{n}:k{n}:q{n}:r{n}", 0, f"seg={seg} snd={(seg * 7) % 53 + 1} sched=low")
                    add(v, f"pair:2:{cs}:c{n}:K{n}:q{n}:r{n}", 0, f"snd={seg} sched=high")
    # all read and send lengths, all interleavings within the deviation bound
    lev = 2
    for n in (1, 2, 3):
        add("b128", f"pair:2:60:q{n}:c1", lev, "dev=srwA")
        add("b128", f"pair:2:60:k{n}:c2:q1", lev if n < 3 or THOROUGH else 1, "dev=srwA")
        add("b128", f"pair:2:60:r{n}:y", lev, "dev=srwA")
    add("b128", "pair:2:100:c3:k2:y:q3:y:r3", 1, "dev=srwA")
    add("b250", "pair:2:100:c3:k4:y:q23:y:r6", 1, "dev=srwA")
    add("b250", "pair:2:100:K5:Q5:R5:q2:r2", 1, "dev=srwA")
    add("b128", "pair:2:60:c1:k3:q4:r3", 3 if THOROUGH else 2, "dev=sr")
    add("b128", "pair:2:60:q11:r3", 2, "dev=srA max=300000")
    for l in ("k1:c1", "k2", "k3", "k2:y:k1", "c1:y:c2", "r1:y") if not THOROUGH else ("k1:c1", "k2:c1", "k3", "k4", "k2:y:k1", "c1:y:c2", "q1", "q1:c1", "r1:y"):
        add("b128", f"pair:2:4:{l}", -1, "dev=srwA" if "r" not in l else "dev=s")
    # a reader that expects a very large batch
    for v in ("b128", "b250"):
        for k in range(20, 32):
            for T in (2 ** k - 1, 2 ** k, 2 ** k + 1, 3 * 2 ** (k - 1), 5 * 2 ** (k - 3)):
                for cs in (60, 100, 128):
                    add(v, f"pair:2:{cs}:c1:k7={T}", 0, "seg=50")
                add(v, f"pair:2:60:c1:q9={T}", 0)
                add(v, f"pair:2:60:c1:y:r5={T}", 0, "seg=17")
                add(v, f"pair:2:60:q4={T}:r5={T}", 0)
                for p in ("k32", "q32", "r32", "s23", "K32", "Q23"):
                    add(v, f"par:2:60:c:y:{p}={T}", 0, "seg=30")
    # real buffers
    for n in (2691, 2692, 2693, 5384, 11665, 11666, 11667, 23333):
        add("real", f"pair:2:500:q{n}:r{n}:c5", 0)
        add("real", f"pair:2:500:k{n // 20}:q{n}:r3:k2", 0, "seg=4999 snd=7001")
    for cs, n in ((124, 1129), (248, 565), (372, 377), (248, 564), (124, 1128)):
        for seg in (0, 1009):
            add("real", f"pair:2:{cs}:k{n}:q5:r2", 0, f"seg={seg}")
    # siblings
    for v in ("b128", "b250"):
        for a in range(4):
            for b in range(4):
                add(v, f"par:2:60:c:k{a}{b}:s{b}{a}:y:q{a}{b}:y:r{b}{a}:c:y", 0)
                add(v, f"par:2:60:c:K{a}{b}:S{b}{a}:y:Q{a}{b}:y:R{b}{a}:c:y", 0, "seg=7 hide=1")
                add(v, f"par:2:100:q{b}{a}:y:k{a}{b}:y:r{a}{a}:y:s{b}{b}", 0, "sched=low snd=9")
        for m in itertools.product("012", repeat=6):
            m = "".join(m)
            add(v, f"par:3:60:k{m}:y:q{m[::-1]}:y:r{m[3:] + m[:3]}:y:s{m[:3]}:c", 0, ("", "seg=5 hide=1", "sched=low hide=2", "sched=lifo hide=3 snd=20")[(int(m, 3)) % 4])
            add(v, f"par:3:60:K{m}:y:Q{m[::-1]}:y:R{m[3:] + m[:3]}:y:S{m[:3]}:c", 0, ("hide=1", "seg=11", "sched=high seg=1", "sched=lifo hide=3")[(int(m, 3) // 3) % 4])
        for seg in range(1, 80):
            add(v, "par:2:60:c:k79:s53:y:q98:y:r49:c", 0, f"seg={seg}")
            add(v, "par:2:60:c:K79:S53:y:Q98:y:R49:c", 0, f"seg={seg} hide={seg % 4} sched={('low', 'high', 'lifo')[seg % 3]}")
        for sc in ["fifo", "low", "high", "lifo"] + [f"{x}:{i}" for x in ("slow", "fast") for i in range(4)]:
            for hide in range(4):
                add(v, "par:4:60:c:K123450123412:y:Q987012345671:y:R112233445566:S1024:c:y", 0, f"sched={sc} hide={hide}")
                add(v, "par:4:60:c:k123450123412:y:q987012345671:y:r112233445566:s1024:c:y", 0, f"sched={sc} hide={hide} seg=17")
        for N in (5, 6):
            d = "".join(str((3 * i + i // 4) % 4) for i in range(N * (N - 1)))
            add(v, f"par:{N}:60:c:K{d}:y:q{d[::-1]}:y:R{d}:y:S{d[:N]}:c", 0, "hide=1")
    for l in ("par:2:60:c:k21:y", "par:2:60:Q22:y", "par:2:60:r12:s11", "par:2:60:S12:c", "par:2:60:K10:Q02:R21"):
        add("b128", l, 2 if THOROUGH else 1, "dev=srpwA")
        add("b128", l, 2, "dev=srp max=200000")
    add("b128", "par:3:60:c:Q102010:y", 1, "dev=srpA")
    add("b128", "par:3:60:K110011:y:r010101", 1, "dev=srp")
    if THOROUGH:
        add("b128", "par:3:60:Q110101:y", 2, "dev=srp max=400000")
        add("b250", "pair:2:100:c3:k4:y:q23:y:r6", 2, "dev=srwA max=1000000")
    n = sum(len(x) for x in by.values())
    for v, lines in sorted(by.items()):
        world.run(rep, v, lines, 600, prog=prog)
    # the same, seen from whole deployments: the bytes on every link are exactly the announced messages
    g = Gen(BASE | RESIDUAL)
    for seg in (1, 2, 3, 5, 11, 13, 51, 53, 59, 75, 77, 99, 101):
        for S, q in ((1, [7]), (2, [5, 8])):
            for st in STAGES:
                g.add("b250", 2, S, 3, 1, q, st, 0, f"seg={seg} snd={seg + 6}")
                g.add("b400", 3, S, 3, 1, q, st, 0, f"seg={seg} hide=1")
    for st in STAGES:
        g.add("b250", 2, 1, 2, 1, [2], st, 1, "dev=rwA")
        g.add("b250", 2, 2, 2, 0, [1, 2], st, 1, "dev=rpwA" if THOROUGH else "dev=rpw")
    g.run(rep, 0)


# ---------------------------------------------------------------- distributions over all random tapes
def _outcomes(d):
    return {k: v for k, v in d.items() if not k.startswith("#")}


def judge_uniform(lines, dists):
    """Every order of the messages has the same probability (messages made by a party itself are not told apart)."""
    for l, dist in zip(lines, dists):
        for comp, d in sorted(dist.items()):
            o = _outcomes(d)
            want = 1
            for part in next(iter(o)).split(";"):
                labels = [x for x in part.split(",") if x]
                want *= math.factorial(len(labels)) // math.factorial(labels.count("x"))
            if d["#outcomes"] != want:
                return f"{comp}: {d['#outcomes']} of {want} orders are possible in '{l}'"
            for k, v in o.items():
                if abs(v * want - 1) > 1e-6:
                    return f"{comp}: order {k} has probability {v:.9f} instead of 1/{want} in '{l}'"
    return None


def judge_equal(lines, dists):
    """All scenarios give the same distribution of every component."""
    for l, dist in zip(lines, dists):
        if sorted(dist) != sorted(dists[0]):
            return f"different observations in '{l}'"
        for comp, d in sorted(dist.items()):
            if d["#digest"] != dists[0][comp]["#digest"]:
                return f"the view '{comp}' of '{l}' is distributed differently from that of '{lines[0]}'"
    return None


def judge_product(lines, dists):
    """The numbers of noise queries on different rows are independent and identically distributed."""
    for l, dist in zip(lines, dists):
        for comp, d in sorted(dist.items()):
            o = {tuple(int(x) for x in k.split(",") if x): v for k, v in _outcomes(d).items()}
            n = len(next(iter(o)))
            marg = [{} for _ in range(n)]
            for k, v in o.items():
                for i, x in enumerate(k):
                    marg[i][x] = marg[i].get(x, 0) + v
            if len(marg[0]) < 2:
                return f"{comp}: the noise is always {marg[0]} in '{l}'"
            for i in range(n):
                if set(marg[i]) != set(marg[0]) or any(abs(marg[i][x] - marg[0][x]) > 1e-9 for x in marg[0]):
                    return f"{comp}: noise on row {i} is distributed differently from noise on row 0 in '{l}'"
            for k in itertools.product(*[sorted(m) for m in marg]):
                e = 1.0
                for i, x in enumerate(k):
                    e *= marg[i][x]
                if abs(o.get(k, 0) - e) > 1e-9:
                    return f"{comp}: noise {k} has probability {o.get(k, 0):.6f}, independent rows give {e:.6f} in '{l}'"
    return None


def judge_fresh(lines, dists):
    """The lines are runs of one deployment with different random numbers from the system: nothing is drawn twice."""
    seen = {}
    for l, dist in zip(lines, dists):
        S = int(re.search(r"S=(\d+)", l).group(1))
        for comp, d in sorted(dist.items()):
            (val,) = _outcomes(d)
            x = [t for t in val.split(",") if t]
            if comp == "secrets":
                items = [("secret", t) for t in x]
            else:
                w = -(-len(x) // S)
                items = [("noise", ",".join(x[i:i + w])) for i in range(0, len(x), w)]
            for k, it in enumerate(items):
                if it in seen:
                    return f"{it[0]} {it[1]} is drawn twice: {comp} {k} in '{l}' and {seen[it]}"
                seen[it] = f"{comp} {k} in '{l}'"
    return None


RULES = {"uniform": judge_uniform, "equal": judge_equal, "product": judge_product, "fresh": judge_fresh}


def distribution(rep, variant, groups, rule, budget=600):
    """groups: lists of scenarios that are judged together."""
    flat = [l for g in groups for l in g]
    before = len(rep.violations)
    rows = world.run(rep, variant, flat, budget)
    if len(rep.violations) > before:
        return
    i = 0
    for g in groups:
        rs = [rows.get(k) for k in range(i, i + len(g))]
        i += len(g)
        if any(r is None or not r.get("complete") for r in rs):
            continue
        why = RULES[rule](g, [r["dist"] for r in rs])
        if why:
            rep.violate(why, dict(kind="distribution", variant=variant, scenarios=g, rule=rule))
            return


def replay_distribution(r, rep):
    rows = world.run(rep, r["variant"], r["scenarios"], 600)
    if rep.violations:
        return True, "an execution is wrong"
    why = RULES[r["rule"]](r["scenarios"], [rows[i]["dist"] for i in range(len(r["scenarios"]))])
    return bool(why), why or "as required"


def c08(rep):
    B = BASE
    def line(P, S, nz, q, st, enum, extra=""):
        return f"P={P} S={S} db=2 {NOISES[nz]} q={','.join(map(str, q))} stage={st} lev=0 oracle={B} obs=perm enum={enum} {extra}".strip()
    ls = []
    for st in ("all", "offline"):
        ls += [line(2, 1, 0, [2], st, "0:2"), line(2, 1, 0, [3], st, "0:6"), line(2, 1, 0, [4], st, "0:12"),
               line(2, 1, 1, [1], st, "0:6"), line(2, 1, 1, [2], st, "0:12"), line(2, 1, 2, [0], st, "0:12")]
        for q in ([1, 1], [2, 0], [2, 1], [0, 3], [1, 2], [3, 0]):
            ls.append(line(2, 2, 0, q, st, f"1000:{2 if sum(q) == 2 else 6},0:2,1:2"))
        for q in ([2, 2], [1, 3], [4, 0]):
            ls.append(line(2, 2, 0, q, st, "1000:12,0:2,1:2", "sched=low"))
        ls += [line(2, 2, 1, [1, 1], st, "1000:12,0:2,1:2"), line(2, 2, 1, [0, 1], st, "1000:6,0:2,1:2"), line(2, 2, 1, [2, 0], st, "1000:12,0:2,1:2")]
        if THOROUGH:
            ls += [line(2, 1, 0, [5], st, "0:60"), line(2, 1, 1, [3], st, "0:60")]
            ls += [line(2, 2, 1, [2, 1], st, "1000:60,0:2,1:6"), line(2, 2, 0, [1, 4], st, "1000:60,0:2,1:6")]
    distribution(rep, "b250", [[l] for l in ls], "uniform")
    ls = []
    for st in ("all", "offline"):
        ls += [line(3, 1, 0, [2], st, "0:2,1:2"), line(3, 1, 0, [3], st, "0:6,1:6"),
               line(3, 2, 0, [1, 1], st, "1000:2,1001:2"), line(3, 2, 0, [2, 1], st, "1000:6,1001:6,0:2,1:2,2:2,3:2")]
        if THOROUGH:
            ls += [line(3, 1, 0, [4], st, "0:12,1:12")]
    distribution(rep, "b400", [[l] for l in ls], "uniform")


def c06(rep):
    ls = []
    for st in ("all", "online"):
        for eps, delta, m in ((1, 0.1, 6), (0.7, 0.05, 5), (2, 0.2, 8)):
            for P, S, db in ((2, 1, 2), (2, 2, 2), (3, 1, 2)):
                ls.append(f"P={P} S={S} db={db} eps={eps} delta={delta} q={','.join('1' * S)} sample=1 stage={st} lev=0 oracle={BASE} obs=noise enum=u:{m if P == 2 else 4}")
        ls.append(f"P=2 S=1 db=3 eps=1 delta=0.1 q=1 sample=1 stage={st} lev=0 oracle={BASE} obs=noise enum=u:4")
        ls.append(f"P=2 S=2 db=3 eps=1 delta=0.1 q=1,0 sample=1 stage={st} lev=0 oracle={BASE} obs=noise enum=u:4")
    distribution(rep, "b700+sample", [[l] for l in ls], "product")


def c26(rep):
    def runs(P, S, q, st, n, extra=""):
        return [f"P={P} S={S} db={12 * S} eps=0.1 delta=0.1 q={','.join(map(str, q))} sample=1 stage={st} lev=0 oracle={BASE} obs=fresh seed={i} {extra}".strip()
                for i in range(1, n + 1)]
    n = 200 if THOROUGH else 40
    gs = []
    for P, S in ((2, 1), (3, 1), (2, 2), (3, 2), (2, 3), (4, 2)):
        for st in STAGES:
            for q in ([2] * S, [5] + [0] * (S - 1)):
                gs.append(runs(P, S, q, st, n if P * S < 6 else n // 2))
        gs.append(runs(P, S, [1] * S, "all", 4, "shared=" + ",".join(["7"] * P) + " local=" + ",".join(["7"] * (P * S))))
    distribution(rep, "b700+sample", gs, "fresh")


def c10(rep):
    def line(P, S, q, keys, extra=""):
        return f"P={P} S={S} db=3 eps=0 delta=0 q={','.join(map(str, q))} keys={keys} stage=all lev=0 oracle={BASE} obs=view enum=uni {extra}".strip()
    gs = [[line(2, 1, [1], k) for k in range(3)],
          [line(2, 2, [1, 1], f"{k}/1") for k in range(3)],
          [line(2, 2, [1, 0], f"{k}/") for k in range(3)],
          [line(2, 1, [2], k) for k in ("0,0", "0,1", "2,1")]]
    if THOROUGH:
        gs.append([line(2, 1, [2], k) for k in ("0,2", "1,1", "2,2", "1,0", "2,0", "1,2")])
        gs.append([line(2, 2, [2, 1], k, "sched=low") for k in ("0,0/1", "1,2/1", "2,0/1")])
    distribution(rep, "b250+p5", gs, "equal")
    gs = [[line(3, 1, [1], k) for k in range(3)]]
    distribution(rep, "b400+p5", gs, "equal")


def c11(rep):
    g = Gen(BASE | MASK | WRONG)
    for P in (2, 3, 4):
        for S in (1, 2, 3):
            for q in ([1] * S, [2] * S, [5] + [0] * (S - 1), [0] * (S - 1) + [7], list(range(S))):
                for nz in (0, 1, 2):
                    for seed in (1, 2):
                        g.add(SMALL[P], P, S, S + 1, nz, q, "all", 0, f"seed={seed}")
    for q in (20, 41, 60):
        for P in (2, 3, 4):
            g.add(SMALL[P], P, 1, 3, 1, [q], "all", 0)
            g.add(SMALL[P], P, 2, 3, 1, [q, 3], "all", 0, "seg=13")
            # the same row over and over
            g.add(SMALL[P], P, 1, 3, 1, [q], "all", 0, "keys=" + ",".join("1" * q))
    g.add("real", 2, 1, 5, 1, [600], "all", 0)
    g.add("real", 3, 2, 5, 1, [300, 200], "all", 0)
    g.add("real", 2, 1, 5, 1, [1500], "all", 0)
    g.add("real", 3, 1, 5, 1, [1100], "all", 0)
    g.add("real", 2, 2, 5, 1, [1200, 1100], "all", 0)
    g.add("real", 2, 1, 3, 1, [66000], "all", 0)
    g.add("b250", 2, 1, 2, 1, [2], "all", 1)
    g.add("b250", 2, 2, 2, 1, [2, 1], "all", 1)
    g.add("b400", 3, 1, 2, 1, [2], "all", 1)
    g.run(rep, 0)


def c12(rep):
    """Onions altered on the way: every byte of every cipher of a batch, at every party."""
    lines = {}
    for P, S, q, nz in ((2, 1, [2], 0), (2, 1, [1], 1), (3, 1, [1], 0), (2, 2, [1, 1], 0)) + (((3, 2, [1, 1], 1), (4, 1, [1], 1)) if THOROUGH else ()):
        for p in range(P):
            size = 4
            # upper bound of the batch: flips beyond the end of the stream would change nothing
            cs = 124 * (P - p)
            n = q[0] if p == 0 else q[0] + 2 * nz * p // S
            for srv in range(S):
                for off in range(4, 4 + n * cs):
                    bits = (1 << (off % 8)) if not THOROUGH else None
                    for b in ([bits] if bits else (1, 16, 128, 255)):
                        lines.setdefault(SMALL[P], []).append(
                            f"P={P} S={S} db=2 {NOISES[nz]} q={','.join(map(str, q))} stage={'all' if off % 3 else 'offline'} lev=0 oracle={MASK} real=1 flip={S + p * S + srv}:{off}:{b}")
    for v, ls in sorted(lines.items()):
        world.run(rep, v, ls, 600)
