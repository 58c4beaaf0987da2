"""Component level checks: exhaustive harnesses linked with the repository's sources."""
import concurrent.futures
import json
import os

from . import lib
from .lib import build, CheckError

WRAPS = ("rand srand random srandom randombytes_uniform randombytes_random randombytes_buf __assert_fail abort exit").split()
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=76:allocator_may_return_null=1:handle_segv=0:handle_abort=0:handle_sigbus=0:"
           "handle_sigfpe=0:handle_sigill=0:use_sigaltstack=0:detect_stack_use_after_return=0")


def exe(src, targets, defines=(), asan=False, link=(), opt="-O2", wraps=(), real_absl=False, access=False):
    flags = (opt,) + (("-fno-access-control",) if access else ()) + (("-fsanitize=address", "-fno-omit-frame-pointer") if asan else ())
    name = os.path.basename(src).replace(".cc", "") + ("-asan" if asan else "") + "".join("-" + d.replace("=", "") for d in defines)
    return build.build(name, targets, ["unit/unit.cc", "unit/" + src], list(defines), flags, kind="exe", wraps=WRAPS + list(wraps), link=link, real_absl=real_absl,
                       main_as={"main.cc": "dppir_node_main", "gen_config.cc": "gen_config_main"})


def _one(cmd, timeout):
    p = lib.sh(cmd, timeout=timeout, env=ENV)
    if p is None:
        return None, [], ""
    rows = []
    for l in p.stdout.splitlines():
        try:
            rows.append(json.loads(l))
        except ValueError:
            pass
    return p.returncode, rows, p.stderr


def run(rep, spec, args=(), timeout=600, parts=None):
    """spec: keyword arguments of exe()."""
    ex = exe(**spec)
    n = parts or lib.JOBS * 3
    base = [ex, *args, "--tier", lib.TIER]
    bad, counts = [], {}
    with concurrent.futures.ThreadPoolExecutor(lib.JOBS) as pool:
        for rc, rows, err in pool.map(lambda i: _one([*base, "--part", f"{i}/{n}"], timeout), range(n)):
            done = False
            for r in rows:
                if "bad" in r:
                    bad.append(r)
                elif "sample" in r:
                    rep.sample(r["sample"])
                elif "counts" in r:
                    done = True
                    for k, v in r["counts"].items():
                        counts[k] = counts.get(k, 0) + v
            if rc == 76 and "AddressSanitizer" in err:
                line = next(l for l in err.splitlines() if "AddressSanitizer" in l)
                case = next((l[5:] for l in reversed(err.splitlines()) if l.startswith("CASE ")), None)
                bad.append({"bad": line, "case": case or "", "crash": True})
            elif rc is None:
                raise CheckError(f"{spec['src']} did not finish")
            elif rc not in (0, 1) or not done:
                raise CheckError(f"{spec['src']} ended with {rc}: {err[-1000:]}")
    seen = 0
    for r in sorted(bad, key=lambda r: r["case"])[:4]:
        cmd = [*base, "--only", r["case"]]
        rc, rows, err = _one(cmd, timeout)
        if rc in (1, 76):
            seen += 1
            rep.violate(f"{r['bad']} (case '{r['case']}')", dict(kind="unit", spec=dict(spec), args=[*args, "--tier", lib.TIER, "--only", r["case"]]))
    if bad and not seen:
        raise CheckError("findings did not reproduce: " + json.dumps(bad[:3]))
    rep.part(harness=spec["src"], args=list(args), defines=list(spec.get("defines", ())), counts=counts)
    rep.stop_if_violated()
    return counts


def replay(r):
    spec = dict(r["spec"])
    for k in ("targets", "defines", "link", "wraps"):
        if k in spec:
            spec[k] = tuple(spec[k])
    rc, rows, err = _one([exe(**spec), *r["args"]], 600)
    text = "\n".join(json.dumps(x) for x in rows) + err[-3000:]
    return rc != 0, text


SHUFFLE = dict(src="shuffle_mc.cc", targets=["//DPPIR/shuffle:local_shuffle", "//DPPIR/shuffle:parallel_shuffle"])


def c07(rep):
    c = run(rep, SHUFFLE, ["C07"])
    rep.add(states=c["tapes"] + c["real_shuffles"], transitions=c["transitions"], traces_validated_against_impl=c["tapes"] + c["real_shuffles"])


def c08(rep):
    c = run(rep, SHUFFLE, ["C08"])
    rep.add(states=c["outcomes"], transitions=c["transitions"], traces_validated_against_impl=c["tapes"])

SHARING = dict(src="sharing_mc.cc", targets=["//DPPIR/sharing:incremental", "//DPPIR/sharing:additive"])
PRIMES = (3, 5, 7, 13)


def field(p):
    return dict(SHARING, defines=(f"VMC_PRIME={p}u",))


def total(rep, cs, states=("states",)):
    rep.add(states=sum(c.get(s, 0) for c in cs for s in states), transitions=sum(c["transitions"] for c in cs),
            traces_validated_against_impl=sum(c.get("states", 0) + c.get("tapes", 0) for c in cs))


def c09(rep):
    total(rep, [run(rep, field(p), ["C09"], parts=8) for p in PRIMES] + [run(rep, SHARING, ["C09"])])


def c10_shares(rep):
    return [run(rep, field(p), ["C10"], parts=8) for p in (3, 5, 7)]


def c11_masks(rep):
    return [run(rep, SHARING, ["C11"])]

NOISE = dict(src="noise_mc.cc", targets=["//DPPIR/noise:noise"])


def c06_mechanism(rep):
    return [run(rep, NOISE, ["fixed"], parts=8), run(rep, dict(NOISE, defines=("DPPIR_SAMPLE",)), ["sampled"])]


def c22(rep):
    total(rep, [run(rep, NOISE, ["C22"])])

ONION = dict(src="onion_mc.cc", targets=["//DPPIR/onion:onion"], asan=True)
CONFIG = dict(src="config_mc.cc", targets=["//DPPIR/config:config"], asan=True)
STATE = dict(src="state_mc.cc", targets=["//DPPIR/types:state"], asan=True)


CONTAINERS = dict(src="containers_mc.cc", targets=["//DPPIR/types:containers", "//DPPIR/types:database", "//DPPIR/types:types"])


def c12(rep):
    total(rep, [run(rep, ONION)])


def c16(rep):
    total(rep, [run(rep, CONFIG)])


def c23(rep):
    total(rep, [run(rep, STATE)])


def c25(rep):
    total(rep, [run(rep, dict(CONTAINERS, asan=True), ["small"]), run(rep, CONTAINERS, ["big"], parts=3)])


GEN = dict(src="gen_mc.cc", targets=["//DPPIR/config:gen_config"])


def c17(rep):
    total(rep, [run(rep, GEN)])

NET = ("socket", "setsockopt", "getsockopt", "bind", "listen", "accept", "accept4", "connect", "read", "recv", "recvfrom", "write", "send",
       "sendto", "poll", "close", "shutdown", "sleep", "usleep")
CLI = dict(src="cli_mc.cc", targets=["//DPPIR:main"], wraps=NET, real_absl=True, opt="-O1")


TAGS = dict(src="tags_mc.cc", targets=["//DPPIR:main"], wraps=NET, defines=("VMC_BUFFER_SIZE=64",), opt="-O1", access=True)


def c15_tags(rep):
    return [run(rep, TAGS)]


def c18(rep):
    c = run(rep, CLI)
    if not c["started"] or not c["refused"]:
        raise CheckError("command lines were not exercised")
    total(rep, [c])


def c27(rep):
    c21(rep, "expand_mc.js", 16)


def c21(rep, script="orch_mc.js", parts=0):
    js = os.path.join(lib.ROOT, "engine", "orch", script)
    base = ["node", "--stack-size=4000", js, "--repo", lib.REPO, "--tier", lib.TIER]
    n = parts or (23 if lib.THOROUGH else 20)
    bad, counts = [], {}
    with concurrent.futures.ThreadPoolExecutor(lib.JOBS) as pool:
        for rc, rows, err in pool.map(lambda i: _one([*base, "--part", f"{i}/{n}"], 3600 if lib.THOROUGH else 600), range(n)):
            if rc not in (0, 1):
                raise CheckError(f"orchestrator exploration ended with {rc}: {err[-1500:]}")
            for r in rows:
                if "bad" in r:
                    bad.append(r)
                elif "sample" in r:
                    rep.samples.append(r["sample"])
                elif "counts" in r:
                    for k, v in r["counts"].items():
                        counts[k] = counts.get(k, 0) + v
    for r in bad[:3]:
        cmd = [*base, "--only", r["case"]]
        rc, rows, err = _one(cmd, 60)
        if rc == 1:
            rep.violate(f"{r['bad']} (requests: {r['case']})", dict(kind="command", command=cmd))
        else:
            raise CheckError("finding did not reproduce: " + json.dumps(r))
    if counts.get("cut"):
        rep.exhaustive = False
    if not bad and not counts.get("states"):
        raise CheckError("nothing was explored")
    counts = dict.fromkeys(("states", "transitions", "executions", "experiments", "refused", "completed", "cut"), 0) | counts
    rep.add(states=counts["states"], transitions=counts["transitions"], traces_validated_against_impl=counts["executions"],
            **({"experiments_queued": counts["experiments"], "commands_beyond_workers": counts["refused"]} if parts else
               {"completed_states": counts["completed"], "states_beyond_bound": counts["cut"]}))


def c29(rep):
    base = ["python3-vt", os.path.join(lib.ROOT, "engine", "plots", "plots_mc.py"), "--repo", lib.REPO, "--tier", lib.TIER]
    n = 24
    bad, counts = {}, dict.fromkeys(("states", "transitions", "refused"), 0)
    with concurrent.futures.ThreadPoolExecutor(lib.JOBS) as pool:
        for rc, rows, err in pool.map(lambda i: _one([*base, "--part", f"{i}/{n}"], 3600 if lib.THOROUGH else 600), range(n)):
            if rc not in (0, 1) or not any("counts" in r for r in rows):
                raise CheckError(f"exploration of the plots ended with {rc}: {err[-1500:]}")
            for r in rows:
                if "bad" in r:
                    bad.setdefault(r["bad"], r["case"])
                elif "sample" in r:
                    rep.samples.append(r["sample"])
                elif "counts" in r:
                    for k, v in r["counts"].items():
                        counts[k] += v
    # those of the paper's plots first: they are few and may be listed
    for what, case in sorted(bad.items(), key=lambda b: (not b[1].startswith("paper"), b))[:16]:
        cmd = [*base, "--only", case]
        rc, rows, err = _one(cmd, 120)
        if rc != 1 or not any(r.get("bad") == what for r in rows):
            raise CheckError(f"finding did not reproduce: {what} ({case})")
        rep.violate(f"{what} (case: {case})", dict(kind="command", command=cmd))
    if not counts["states"]:
        raise CheckError("nothing was explored")
    rep.add(states=counts["states"], transitions=counts["transitions"], traces_validated_against_impl=counts["states"], plots_refused=counts["refused"])
