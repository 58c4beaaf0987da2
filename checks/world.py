"""Runs scenarios in the virtual world and confirms what it finds."""
import json
import os
import glob

from . import lib
from .lib import build, CheckError

VARIANTS = {
    # name: (BUFFER_SIZE, POLL_RATE) scaled down so that small batches cross buffer boundaries
    "real": (),
    "b128": (128, 128),
    "b248": (248, 248),
    "b312": (312, 312),
    "b250": (250, 250),
    "b400": (400, 400),
    "b520": (520, 520),
    "b700": (700, 700),
}


def defines(variant):
    name, *opts = variant.split("+")
    out = []
    if VARIANTS.get(name):
        b, p = VARIANTS[name]
        out += [f"VMC_BUFFER_SIZE={b}", f"VMC_POLL_RATE={p}", "VMC_PROGRESS_RATE=3"]
    for o in opts:
        if o == "sample":
            out.append("DPPIR_SAMPLE")
        elif o in ("avz", "avp"):
            pass   # a compiler flag, see node()
        elif o.startswith("p") and o[1:].isdigit():
            out.append("VMC_PRIME=" + o[1:] + "u")
    return out


def is_asan(variant):
    return "+asan" in variant


def exe(asan=False):
    flags = ("-O1", "-fsanitize=address", "-DVMC_ASAN", "-fno-omit-frame-pointer") if asan else ("-O2",)
    return build.build("vmc" + ("-asan" if asan else ""), [], ["vmc.cc", "scen.cc", "world.cc", "arena.cc"], [], flags, kind="exe")


def node(variant, prog=None):
    fl = ("-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "--param=asan-globals=0") if is_asan(variant) else ("-O1",)
    if "+avz" in variant or "+avp" in variant:   # automatic variables start with a known content
        fl += ("-ftrivial-auto-var-init=" + ("zero" if "+avz" in variant else "pattern"),)
    return build.node("node-" + variant + ("-" + prog[1].replace(".cc", "") if prog else ""), defines(variant), fl, prog=prog)


ASAN_ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=76:"
                "verify_asan_link_order=0:quarantine_size_mb=16:malloc_fill_byte=0:allocator_may_return_null=1:"
                "log_path=stderr:print_legend=0:detect_odr_violation=0")


def replay_cmd(variant, line, devs, tmp, prog=None, trace=False, tape=""):
    sf = os.path.join(tmp, "replay.scen")
    with open(sf, "w") as f:
        f.write(line + "\n")
    cmd = [exe(is_asan(variant)), "--node", node(variant, prog), "--scen", sf, "--workdir", tmp, "--replay", devs, "--tape", tape]
    return cmd + (["--trace", "1"] if trace else [])


def replay(variant, line, devs, tmp, prog=None, trace=False, tape=""):
    """-> (violated, text)"""
    p = lib.sh(replay_cmd(variant, line, devs, tmp, prog, trace, tape), timeout=300, env=ASAN_ENV if is_asan(variant) else None)
    if p is None:
        return True, "does not end"
    if p.returncode == 0:
        return False, p.stdout
    if p.returncode in (71, 72):
        raise CheckError("replay could not start: " + p.stderr[-500:])
    text = p.stdout + p.stderr[-3000:]
    return True, text


def run(rep, variant, lines, deadline, prog=None, must_finish=True):
    """Explores every scenario; adds coverage and confirmed violations to the report."""
    if not lines:
        return {}
    ex, so = exe(is_asan(variant)), node(variant, prog)
    tmp = os.path.join(rep.tmp, "w%d" % len(rep.parts))
    os.makedirs(tmp, exist_ok=True)
    sf = os.path.join(tmp, "scen")
    with open(sf, "w") as f:
        f.write("\n".join(lines) + "\n")
    base = os.path.join(tmp, "out")
    p = lib.sh([ex, "--node", so, "--scen", sf, "--workdir", tmp, "--out", base, "--jobs", str(lib.JOBS),
                "--deadline", str(deadline)], timeout=deadline + 300, env=ASAN_ENV if is_asan(variant) else None)
    if p is None or p.returncode != 0:
        raise CheckError("explorer failed: " + (p.stderr[-2000:] if p else "timeout"))
    rows = {}
    seen, tot = set(), dict(runs=0, judged=0, pruned=0, states=0, decisions=0, ops=0, diverged=0)
    complete = skipped = 0
    found = []
    for fn in sorted(glob.glob(base + ".*")):
        for row in open(fn):
            r = json.loads(row)
            i = r["scen"]
            if r.get("skipped"):
                skipped += 1
                continue
            seen.add(i)
            rows[i] = r
            if not r.get("judged") and not r.get("findings") and not r.get("died"):
                raise CheckError(f"no execution of '{lines[i]}' was judged")
            for k in tot:
                tot[k] += r.get(k, 0)
            complete += bool(r.get("complete"))
            for f in r.get("findings", []):
                found.append((i, f))
    if tot["diverged"]:
        raise CheckError(f"{tot['diverged']} executions diverged from their prefix: nondeterminism is not under control")
    if len(seen) + skipped < len(lines):
        raise CheckError("some scenarios were not executed")
    found.sort(key=lambda x: (len(x[1]["devs"]), x[0]))
    confirmed = 0
    for i, f in found[:6]:
        ok, text = replay(variant, lines[i], f["devs"], tmp, prog, tape=f.get("tape", ""))
        if ok:
            confirmed += 1
            detail = next((l[8:] for l in text.splitlines() if l.startswith("FINDING ")), f["msg"])
            if f["cat"] == "memory":
                err = next((l for l in text.splitlines() if "ERROR: AddressSanitizer" in l), None)
                detail = err or f["msg"]
            rep.violate(f"[{f['cat']}] {detail} in scenario '{lines[i]}' (build {variant}, schedule deviations '{f['devs']}')",
                        dict(kind="world", variant=variant, scenario=lines[i], deviations=f["devs"], tape=f.get("tape", ""),
                             prog=list(prog) if prog else None))
            if confirmed >= 2 or f["cat"] == "hang":
                break
    if found and not confirmed:
        raise CheckError("findings did not reproduce: " + json.dumps(found[:3]))
    if complete < len(lines):
        rep.exhaustive = rep.exhaustive and bool(found)
    rep.add(states=tot["states"], transitions=tot["ops"], executions=tot["runs"], traces_validated_against_impl=tot["judged"],
            scenarios=len(seen))
    rep.part(build=variant, scenarios=len(lines), explored_completely=complete, not_reached=skipped, executions=tot["runs"],
             judged=tot["judged"], merged=tot["pruned"], distinct_states=tot["states"], operations=tot["ops"])
    for k in (0, len(lines) // 2, len(lines) - 1):
        rep.sample(f"{variant}: {lines[k]}")
    for x in glob.glob(base + ".*") + glob.glob(tmp + "/cfg*"):
        os.unlink(x)
    rep.stop_if_violated()
    return rows
