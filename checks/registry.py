"""Property id -> (level, function)."""
import subprocess

from . import daemon, lib, proto, unit, world

CHECKS = {
    "C01": ("model_checking", proto.c01),
    "C02": ("model_checking", proto.c02),
    "C03": ("model_checking", proto.c03),
    "C04": ("model_checking", proto.c04),
    "C05": ("model_checking", proto.c05),
    "C07": ("model_checking", unit.c07),
    "C08": ("model_checking", lambda rep: (unit.c08(rep), proto.c08(rep))),
    "C09": ("model_checking", unit.c09),
    "C06": ("model_checking", lambda rep: (unit.total(rep, unit.c06_mechanism(rep)), proto.c06(rep))),
    "C10": ("model_checking", lambda rep: (unit.total(rep, unit.c10_shares(rep)), proto.c10(rep))),
    "C11": ("model_checking", lambda rep: (unit.total(rep, unit.c11_masks(rep)), proto.c11(rep))),
    "C22": ("model_checking", unit.c22),
    "C12": ("model_checking", lambda rep: (unit.c12(rep), proto.c12(rep))),
    "C16": ("model_checking", unit.c16),
    "C23": ("model_checking", unit.c23),
    "C17": ("model_checking", unit.c17),
    "C18": ("model_checking", lambda rep: (unit.c18(rep), proto.c18(rep))),
    "C21": ("model_checking", unit.c21),
    "C25": ("model_checking", unit.c25),
    "C26": ("model_checking", proto.c26),
    "C24": ("model_checking", daemon.c24),
    "C27": ("model_checking", unit.c27),
    "C28": ("model_checking", proto.c28),
    "C29": ("model_checking", unit.c29),
    "C13": ("model_checking", proto.c13),
    "C14": ("model_checking", proto.c14),
    "C19": ("fault_enumeration", proto.c19),
    "C20": ("model_checking", proto.c20),
    "C15": ("model_checking", lambda rep: (unit.total(rep, unit.c15_tags(rep)), proto.c15(rep))),
}


def setup():
    world.exe()
    for v in world.VARIANTS:
        world.node(v)


def replay(r):
    rep = lib.Report(r["property"], "other")
    try:
        if r["kind"] == "world":
            prog = tuple(r["prog"]) if r.get("prog") else None
            bad, text = world.replay(r["variant"], r["scenario"], r["deviations"], rep.tmp, prog, trace=True, tape=r.get("tape", ""))
        elif r["kind"] == "distribution":
            bad, text = proto.replay_distribution(r, rep)
        elif r["kind"] == "wire":
            bad, text = proto.replay_wire(r, rep)
        elif r["kind"] == "daemon":
            bad, text = daemon.replay(r)
        elif r["kind"] == "unit":
            bad, text = unit.replay(r)
        else:
            p = subprocess.run(r["command"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            bad, text = p.returncode != 0, p.stdout
        print(text)
        print("violated" if bad else "not violated")
        return 1 if bad else 0
    except lib.Found:
        print(rep.violations[0][0])
        print("violated")
        return 1
    finally:
        rep.close()
