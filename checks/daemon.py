"""The worker daemons (bash) against scripted orchestrators: all scripts of replies within bounds (C24)."""
import ctypes
import glob
import itertools
import json
import multiprocessing
import os
import re
import select
import shutil
import signal
import subprocess
import tempfile
import time

from . import lib
from .lib import CheckError, THOROUGH

SRC = os.path.join(lib.ROOT, "engine", "daemon", "stub.c")
HOST = "orchestrator.example:8000"
ID = "37"
NOBODY = 65534


def stub():
    out = os.path.join(lib.build.OUT if hasattr(lib.build, "OUT") else os.path.join(lib.ROOT, "_build"), "daemon-stub")
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(SRC):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        p = lib.sh(["gcc", "-O2", "-w", "-o", out + ".new", SRC])
        if p is None or p.returncode:
            raise CheckError("stub does not build: " + (p.stderr if p else ""))
        os.replace(out + ".new", out)
    return out


def reaper():
    """Orphans of the daemons become children of this process, which collects them."""
    ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)


def reap(session):
    for _ in range(2000):
        left = 0
        for d in os.listdir("/proc/self/task"):
            try:
                kids = open(f"/proc/self/task/{d}/children").read().split()
            except OSError:
                continue
            for k in kids:
                try:
                    if os.getsid(int(k)) == session and os.waitpid(int(k), os.WNOHANG)[0] == 0:
                        left += 1
                except OSError:
                    pass
        if not left:
            return
        time.sleep(0.001)


def collect():
    try:
        for _ in range(500):
            if not os.waitpid(-1, os.WNOHANG)[0]:
                time.sleep(0.002)
    except OSError:
        pass


class Bench:
    """A scratch tree with copies of the shell scripts, run as an unprivileged user."""

    def __init__(self, tmp, n):
        self.top = os.path.join(tmp, f"d{n}")
        self.exp = os.path.join(lib.REPO, "experiments")
        self.scripts = {}
        for f in glob.glob(self.exp + "/*.sh") + glob.glob(self.exp + "/*/*.sh"):
            with open(f, "rb") as x:
                self.scripts[os.path.relpath(f, self.exp)] = x.read()
        os.makedirs(self.top + "/bin")
        exe = stub()
        for n in ("curl", "bazel", "sleep", "ps", "vp_kill"):
            shutil.copy(exe, self.top + "/bin/" + n)
            os.chmod(self.top + "/bin/" + n, 0o755)
        self.env = {"PATH": self.top + "/bin:/usr/bin:/bin", "HOME": self.top, "VP_HOST": HOST, "VP_DIR": self.top + "/st", "LANG": "C",
                    "BASH_FUNC_kill%%": "() { vp_kill \"$@\"; }"}
        self.fresh()

    def fresh(self):
        self.tree = self.top + "/tree"
        shutil.rmtree(self.tree, ignore_errors=True)
        for rel, data in self.scripts.items():
            p = os.path.join(self.tree, "experiments", rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(data)
            os.chmod(p, 0o755)
        os.makedirs(self.tree + "/config")
        if os.getuid() == 0:
            for d, _, fs in os.walk(self.tree):
                os.chown(d, NOBODY, NOBODY)

    def clean(self):
        """Removes what an earlier run left behind."""
        for d, _, fs in os.walk(self.tree):
            for f in fs:
                p = os.path.join(d, f)
                if os.path.relpath(p, self.tree + "/experiments") not in self.scripts:
                    os.unlink(p)

    def run(self, kind, jobs):
        self.clean()
        st = self.top + "/st"
        shutil.rmtree(st, ignore_errors=True)
        os.makedirs(st + "/pids")
        with open(st + "/script", "w") as f:
            for waits, cfg, polls, reply in jobs:
                f.write(f"{waits} {cfg} {polls} {reply}\n")
        if os.getuid() == 0:
            os.chown(st, NOBODY, NOBODY)
            os.chown(st + "/pids", NOBODY, NOBODY)

        def low():
            os.setsid()
            if os.getuid() == 0:
                os.setgroups([])
                os.setgid(NOBODY)
                os.setuid(NOBODY)
        p = subprocess.Popen(["./experiments/daemon_%s.sh" % kind, HOST], cwd=self.tree, env=self.env, preexec_fn=low,
                             stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        fd = os.pidfd_open(p.pid)
        late = not select.select([fd], [], [], 30)[0]
        os.close(fd)
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        reap(p.pid)
        log = []
        try:
            for line in open(st + "/log"):
                k, *rest = line.rstrip("\n").split(" ")
                log.append((k, [re.sub("%([0-9a-f]{2})", lambda m: chr(int(m.group(1), 16)), "" if x == "%" else x) for x in rest]))
        except OSError:
            pass
        return log, late


def flags(tokens):
    """--a=b and --a b (one or two dashes) to a sorted list, other words as they are"""
    out, i = [], 0
    while i < len(tokens):
        t = tokens[i]
        m = re.match(r"--?([A-Za-z_0-9]+)(?:=(.*))?$", t, re.S)
        if m and m.group(2) is not None:
            out.append((m.group(1), m.group(2)))
        elif m and i + 1 < len(tokens) and not tokens[i + 1].startswith("-"):
            out.append((m.group(1), tokens[i + 1]))
            i += 1
        else:
            out.append((t, None))
        i += 1
    return sorted(out, key=str)


def expected(kind, reply):
    """-> (text in the target, flags) or None if nothing is to be run"""
    t, *a = reply.split()
    if t == "dppir" and kind == "server":
        return "//DPPIR:main", {"role": "party", "stage": a[2], "party_id": a[0], "server_id": a[1]}
    if t == "dppir":
        return "//DPPIR:main", {"role": "client", "stage": a[2], "server_id": a[0], "queries": a[1]}
    if t == "checklist" and kind == "server":
        return "rpc_server", {"numRows": a[1], "p": a[2], "pirType": a[3]}
    if t == "checklist":
        return ":main", {"serverAddr": a[0], "serverAddr2": a[1], "pirType": a[3], "q" + a[2]: None}
    if t == "sealpir" and kind == "client":
        return ":sealpir", {"table": a[0], "queries": a[1]}
    return None


def judge(kind, jobs, log, late):
    """Walks through the calls the daemon made; why they are wrong, or None."""
    if late:
        return "the daemon makes no progress"
    pos = 0
    calls = [c for c in log if c[0] != "REFUSED"]
    if any(c[0] == "FLOOD" for c in log):
        return "the daemon does not get on"
    if any(c[0] == "REFUSED" for c in log):
        return "the daemon kills something that is not its job: " + next(c[1][0] for c in log if c[0] == "REFUSED")

    def take(what, path, method="GET"):
        nonlocal pos
        if pos >= len(calls) or calls[pos][0] != "CURL" or calls[pos][1][:2] != [method, path]:
            got = "nothing" if pos >= len(calls) else calls[pos][0] + " " + " ".join(calls[pos][1][:2])
            raise ValueError(f"{what}: expected {method} {path}, got {got}")
        pos += 1
        return calls[pos - 1][1]

    try:
        take("registering", "/giveip/" + kind)
        for j, (waits, cfg, polls, reply) in enumerate(jobs):
            where = f"job {j} ({reply})"
            for _ in range(waits + 1):
                take(f"before {where}", "/ping/" + ID)
            want = expected(kind, reply)
            dppir = reply.startswith("dppir ")
            if dppir:
                for _ in range(cfg + 1):
                    take(f"{where}: fetching the configuration", "/config/" + ID)
            # from here the job may be recorded at any moment before its first poll is answered
            ran, k, over = None, 0, False
            while not over:
                if pos >= len(calls):
                    raise ValueError(f"{where}: the daemon stopped")
                c = calls[pos]
                if c[0] == "JOB":
                    if ran is not None:
                        raise ValueError(f"{where}: started twice")
                    ran = c[1]
                    pos += 1
                elif c[0] == "CURL" and c[1][1].startswith("/shouldkill/"):
                    r = take(where, "/shouldkill/" + ID)
                    if k >= len(polls):
                        raise ValueError(f"{where}: goes on after its end")
                    if polls[k] == "2":
                        if pos < len(calls) and calls[pos][0] == "JOB" and ran is None:
                            ran = calls[pos][1]
                            pos += 1
                        b = take(f"{where}: log wanted", "/showlog/" + ID, "POST")[2]
                        if want and f"start {j}\n" not in b + "\n":
                            raise ValueError(f"{where}: the log shown is not that of the job: {b!r}")
                    over = polls[k] in "1E"
                    k += 1
                elif c[0] == "CURL" and want is None and c[1][1].startswith("/done/"):
                    over = True    # a job of unknown kind may be over at once
                else:
                    raise ValueError(f"{where}: unexpected {c[0]} {' '.join(c[1][:2])} while it runs")
            if pos < len(calls) and calls[pos][0] == "JOB" and ran is None:
                ran = calls[pos][1]
                pos += 1
            d = take(f"{where}: reporting", "/done/" + ID, "POST")
            body = d[2]
            if d[4] != "0":
                raise ValueError(f"{where}: still running when it is reported")
            if want is None:
                if ran is not None and ran[0] != "nothing":
                    raise ValueError(f"{where}: runs {' '.join(ran)}")
                continue
            if ran is None or ran[0] != "bazel":
                raise ValueError(f"{where}: was not started")
            target, fl = want
            args, conf = ran[1:-1], ran[-1]
            if "--" not in args:
                raise ValueError(f"{where}: started as {args}")
            at = args.index("--")
            if not any(x.endswith(target) for x in args[:at]):
                raise ValueError(f"{where}: runs {args[:at]}")
            got = dict(flags(args[at + 1:]))
            if dppir:
                if got.pop("config", None) is None or conf != f"configuration of job {j}\n 00ff *  ?\n":
                    raise ValueError(f"{where}: started with configuration {conf!r}")
            for x in ("rowLen", "tls"):
                got.pop(x, None)
            if got != fl:
                raise ValueError(f"{where}: started with {got} instead of {fl}")
            text = re.findall(r"^(?:start|end) \d+$", body, re.M)
            full = [f"start {j}"] + ([f"end {j}"] if polls[-1] == "E" else [])
            if text != full:
                raise ValueError(f"{where}: reported log has {text} instead of {full}")
        if pos >= len(calls) or calls[pos][0] != "CURL" or calls[pos][1][1] != "/ping/" + ID or pos + 1 >= len(calls) or calls[pos + 1][0] != "END":
            raise ValueError("after the last job: expected a ping, got " + str(calls[pos:pos + 1]))
    except ValueError as e:
        return str(e)
    return None


def cases():
    polls1 = ["".join(p) + e for n in (0, 1, 2) for p in itertools.product("02", repeat=n) for e in "1E"]
    if THOROUGH:
        polls1 += ["".join(p) + e for p in itertools.product("02", repeat=3) for e in "1E"]
    for kind in ("server", "client"):
        if kind == "server":
            real = ["dppir 0 0 all", "dppir 1 0 online", "dppir 2 13 offline", "checklist 4 100 10004 DPF", "checklist 12 7 10012 Punc", "bogus 1 2"]
        else:
            real = ["dppir 0 5 all", "dppir 3 0 online", "dppir 10 100000 offline", "checklist 10.0.0.1:10001 10.0.0.2:10002 9 DPF", "sealpir 60 3", "bogus 7"]
        # one job, everything combined
        for r in real:
            for p in polls1:
                for w in (0, 1, 2):
                    for c in (0, 1, 2) if r.startswith("dppir") else (0,):
                        yield kind, [(w, c, p, r)]
        # sequences of jobs
        some = ["E", "1", "0E", "21", "2E"]
        for a, b in itertools.product(real, repeat=2):
            for p, q in itertools.product(some if THOROUGH else some[:4], repeat=2):
                yield kind, [(0, 1, p, a), (1, 0, q, b)]
        for a, b, c in itertools.product(real if THOROUGH else (real[0], real[2], real[3]), repeat=3):
            for p in itertools.product("E1", repeat=3):
                yield kind, [(0, 0, p[0], a), (1, 1, p[1], b), (0, 0, p[2], c)]


def text(kind, jobs):
    return kind + ": " + " | ".join(f"{w} {c} {p} {r}" for w, c, p, r in jobs)


def parse(s):
    kind, rest = s.split(": ", 1)
    jobs = []
    for j in rest.split(" | "):
        w, c, p, r = j.split(" ", 3)
        jobs.append((int(w), int(c), p, r))
    return kind, jobs


def scratch():
    reaper()
    d = tempfile.mkdtemp(prefix="vmc-daemon-")
    os.chmod(d, 0o755)
    return d


def c24(rep):
    tmp = scratch()
    try:
        todo = list(cases())
        n = lib.JOBS
        benches = [Bench(tmp, i) for i in range(n)]   # before the first run: no file is being written when one is started
        stop = multiprocessing.Value("i", 0)

        def work(i, q):
            reaper()
            calls = done = 0
            bad = []
            for k in range(i, len(todo), n):
                if stop.value > 3:
                    break
                kind, jobs = todo[k]
                log, late = benches[i].run(kind, jobs)
                calls += len(log)
                done += 1
                why = judge(kind, jobs, log, late)
                if why:
                    bad.append((k, why))
                    stop.value += 4 if late else 1
            collect()
            q.put((calls, done, bad))
        ctx = multiprocessing.get_context("fork")
        q = ctx.Queue()
        ps = [ctx.Process(target=work, args=(i, q)) for i in range(n)]
        for x in ps:
            x.start()
        calls = done = 0
        bad = []
        for _ in ps:
            c, d, b = q.get(timeout=800)
            calls, done, bad = calls + c, done + d, bad + b
        for x in ps:
            x.join()
        confirmed = 0
        for k, why in sorted(bad)[:4]:
            kind, jobs = todo[k]
            again = once(tmp, kind, jobs)
            if again:
                confirmed += 1
                rep.violate(f"{again} (replies '{text(kind, jobs)}')", dict(kind="daemon", case=text(kind, jobs)))
        if bad and not confirmed:
            raise CheckError("findings did not reproduce: " + json.dumps(sorted(bad)[:3]))
        for k in (0, len(todo) // 2, len(todo) - 1):
            rep.sample(text(*todo[k]))
        rep.exhaustive = rep.exhaustive and done == len(todo)
        rep.add(states=done, transitions=calls, executions=done, traces_validated_against_impl=done)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def once(tmp, kind, jobs):
    b = Bench(tmp, "r%d" % len(os.listdir(tmp)))
    return judge(kind, jobs, *b.run(kind, jobs))


def replay(r):
    tmp = scratch()
    try:
        kind, jobs = parse(r["case"])
        why = once(tmp, kind, jobs)
        return bool(why), why or "as required"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
