"""Builds the repository's sources (working tree of /repo) for the checks.

Everything goes to a content-addressed cache below VMC_BUILD (default
/verif/_build, ignored by git): the key covers every source file of the
repository, every engine file and the flags, so an edit of either rebuilds.
"""
import concurrent.futures
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VMC_REPO", "/repo")
OUT = os.environ.get("VMC_BUILD", os.path.join(os.path.dirname(HERE), "_build"))
JOBS = int(os.environ.get("VMC_JOBS", str(os.cpu_count() or 8)))

WRAPS = ("socket setsockopt getsockopt bind listen accept accept4 connect read recv recvfrom readv write send "
         "sendto sendmsg recvmsg writev poll ppoll select close shutdown sleep usleep nanosleep rand srand random srandom "
         "randombytes_buf randombytes_uniform randombytes_random crypto_box_seal crypto_box_seal_open "
         "__assert_fail exit _exit abort __cxa_atexit __cxa_thread_atexit").split()


class BuildError(Exception):
    pass


def _rules():
    rules = {}

    def label(text, package):
        if text.startswith("@"):
            return text
        if text.startswith("//"):
            path, _, name = text[2:].partition(":")
            return f"//{path}:{name or os.path.basename(path)}"
        return f"//{package}:{text.lstrip(':')}"

    def evaluate(build):
        package = os.path.relpath(os.path.dirname(build), REPO)

        def rule(kind):
            def define(name, srcs=(), hdrs=(), deps=(), copts=(), defines=(), local_defines=(), **_):
                files = []
                for s in [*srcs, *hdrs]:
                    where, _, n = label(s, package)[2:].partition(":")
                    files.append(os.path.join(where, n))
                rules[label(name, package)] = dict(kind=kind, files=files, copts=list(copts), defines=list(defines),
                                                   local_defines=list(local_defines),
                                                   deps=[label(d, package) for d in deps])
            return define

        def bglob(include, exclude=(), **_):
            base = os.path.join(REPO, package)
            hits = {p for g in include for p in glob.glob(g, root_dir=base, recursive=True)}
            return sorted(hits - {p for g in exclude for p in glob.glob(g, root_dir=base, recursive=True)})

        ign = lambda *a, **k: None
        scope = dict(load=ign, package=ign, exports_files=ign, filegroup=ign, licenses=ign, glob=bglob,
                     cc_library=rule("library"), cc_binary=rule("binary"), cc_test=rule("test"))
        exec(compile(open(build).read(), build, "exec"), scope)

    for top, dirs, files in os.walk(os.path.join(REPO, "DPPIR")):
        dirs.sort()
        if "BUILD.bazel" in files:
            evaluate(os.path.join(top, "BUILD.bazel"))
    return rules


def closure(targets):
    """[(source relative to REPO, [flags])] of every .cc in the dependency closure."""
    rules = _rules()
    seen, todo, out = set(), list(targets), []
    while todo:
        t = todo.pop()
        if t in seen or t.startswith("@"):
            continue
        seen.add(t)
        r = rules.get(t)
        if r is None:
            raise BuildError(f"no target {t}")
        todo += r["deps"]
        flags = [*r["copts"], *["-D" + d for d in r["defines"] + r["local_defines"]]]
        for f in r["files"]:
            if f.endswith((".cc", ".cpp", ".c")):
                out.append((f, flags))
    return sorted(set((f, tuple(fl)) for f, fl in out))


def _digest(paths, extra):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    h.update(repr(extra).encode())
    return h.hexdigest()[:24]


def _inputs(extra):
    files = []
    for top, dirs, names in os.walk(os.path.join(REPO, "DPPIR")):
        dirs.sort()
        files += [os.path.join(top, n) for n in names]
    for top, dirs, names in os.walk(HERE):
        dirs[:] = [d for d in dirs if d != "__pycache__"]
        files += [os.path.join(top, n) for n in names if n.endswith((".h", ".inc")) or n == "build.py"]
    files += [os.path.join(HERE, e) for e in extra]
    return files


def _run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("command failed: " + " ".join(cmd) + "\n" + p.stdout[-6000:])
    return p.stdout


def _compile_all(jobs):
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for f in [ex.submit(_run, j) for j in jobs]:
            f.result()


def _prune():
    try:
        entries = sorted((os.path.join(OUT, e) for e in os.listdir(OUT)), key=os.path.getmtime)
    except OSError:
        return
    while len(entries) > 60:
        shutil.rmtree(entries.pop(0), ignore_errors=True)


BASE = ["-std=c++17", "-g1", "-w", "-fPIC", "-U_FORTIFY_SOURCE", "-fno-gnu-unique", "-pthread"]


def build(name, targets, extra_sources=(), defines=(), flags=("-O1",), kind="node", link=(), main_as=None,
          real_absl=False, repo_flags=(), wraps=None):
    """kind: 'node' (shared object with wraps) or 'exe'. Returns the path of the artefact."""
    srcs = closure(targets) if targets else []
    ins = [p for p in _inputs(extra_sources) if targets or not p.startswith(REPO + "/")]
    key = _digest(ins, (name, targets, tuple(extra_sources), tuple(defines), tuple(flags), kind, tuple(link),
                              main_as, real_absl, tuple(repo_flags), REPO, tuple(wraps or ())))
    dst = os.path.join(OUT, f"{name}-{key}")
    artefact = os.path.join(dst, "node.so" if kind == "node" else name)
    if os.path.exists(artefact):
        os.utime(dst)
        return artefact
    os.makedirs(OUT, exist_ok=True)
    _prune()
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=OUT)
    try:
        inc = ["-I" + os.path.join(HERE, "shadow")]
        if not real_absl:
            inc.append("-I" + os.path.join(HERE, "stub"))
        inc += ["-I" + REPO, "-I" + HERE]
        dfl = ["-D" + d for d in defines]
        objs, jobs = [], []
        for i, (s, fl) in enumerate(srcs):
            o = os.path.join(tmp, f"r{i}.o")
            cmd = ["g++", *BASE, *flags, *repo_flags, *dfl, *fl, *inc, "-c", os.path.join(REPO, s), "-o", o]
            if main_as and os.path.basename(s) in main_as:
                cmd.insert(1, "-Dmain=" + main_as[os.path.basename(s)])
            if kind == "node":
                cmd.insert(1, "-fvisibility=hidden")
            jobs.append(cmd)
            objs.append(o)
        for i, s in enumerate(extra_sources):
            o = os.path.join(tmp, f"x{i}.o")
            cmd = ["g++", *BASE, *flags, *dfl, *inc, "-c", os.path.join(HERE, s), "-o", o]
            if kind == "node":
                cmd.insert(1, "-fvisibility=hidden")
            jobs.append(cmd)
            objs.append(o)
        _compile_all(jobs)
        out = os.path.join(tmp, os.path.basename(artefact))
        libs = ["-lsodium", "-lpthread", "-ldl"]
        if real_absl:
            mods = ["absl_flags", "absl_flags_parse", "absl_flags_usage"]
            pc = subprocess.run(["pkg-config", "--static", "--libs", *mods], stdout=subprocess.PIPE, text=True)
            libs = pc.stdout.split() + libs
        w = ["-Wl,--wrap=" + x for x in (wraps if wraps is not None else (WRAPS if kind == "node" else ()))]
        if kind == "node":
            cmd = ["g++", "-shared", "-o", out, *flags, *objs, *w, "-Wl,-Bsymbolic", "-Wl,-z,norelro", "-Wl,-z,now",
                   "-Wl,--exclude-libs,ALL", *link, *libs]
        else:
            cmd = ["g++", "-o", out, *flags, *objs, *w, *link, *libs]
        _run(cmd)
        for o in objs:
            os.unlink(o)
        try:
            os.rename(tmp, dst)
        except OSError:
            if not os.path.exists(artefact):
                raise
    finally:
        if os.path.isdir(tmp):
            shutil.rmtree(tmp, ignore_errors=True)
    return artefact


def node(name, defines=(), flags=("-O1",), prog=None, real_absl=False):
    if prog:
        return build(name, prog[0], ["shim.cc", prog[1]], ["VMC_HAVE_PROG", *defines], flags, main_as={"main.cc": "dppir_node_main"})
    return build(name, ["//DPPIR:main"], ["shim.cc"], ["VMC_HAVE_MAIN", *defines], flags,
                 main_as={"main.cc": "dppir_node_main"}, real_absl=real_absl)


if __name__ == "__main__":
    print(node("node-real"))
