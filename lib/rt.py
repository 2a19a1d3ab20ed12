"""Builds, runs and model-checks: what every check needs."""
import fcntl
import glob
import hashlib
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get("REPO", "/repo"))
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SHARDS = 8


class ToolError(Exception):
    """The machinery could not decide."""


def note(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ building
def source_hash():
    h = hashlib.sha256()
    files = sorted(glob.glob(REPO + "/src/**/*", recursive=True)) + [REPO + "/Cargo.toml", REPO + "/build.rs"]
    files += sorted(glob.glob(HARNESS + "/src/*")) + [HARNESS + "/Cargo.toml", HARNESS + "/Cargo.lock"]
    for f in files:
        if os.path.isfile(f):
            with open(f, "rb") as fh:
                h.update(f.encode() + b"\0" + fh.read() + b"\0")
    return h.hexdigest()


def build(onig=False):
    """The harness and the command, against the working tree of the repository."""
    os.makedirs(BUILD, exist_ok=True)
    target = os.path.join(BUILD, "onig" if onig else "plain")
    env = dict(os.environ, FORMAT_TESTS="false", FORMAT_TESTS_BACKUP="false", CARGO_NET_OFFLINE="true",
               CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=target, RUSTC_WRAPPER="", CARGO_INCREMENTAL="1",
               RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_PROFILE_DEV_DEBUG="0")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUST_LOG"):
        env.pop(k, None)
    env["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + env.get("PATH", "") + ":" + \
        os.path.expanduser("~/.cargo/bin")
    if onig:
        for d in ("/usr/lib/llvm-14/lib", *sorted(glob.glob("/usr/lib/llvm-*/lib"))):
            if glob.glob(d + "/libclang*.so*"):
                env["LIBCLANG_PATH"] = d
                break
    with open(target + ".lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = target + ".stamp"
        now = source_hash()
        old = open(stamp).read() if os.path.exists(stamp) else None
        if old != now:
            if os.path.exists(stamp):
                os.remove(stamp)
            if old is not None:  # cargo goes by modification times; go by content
                subprocess.run(["cargo", "clean", "--offline", "-p", "jsonschema-transpiler", "-p", "jstx"],
                               cwd=HARNESS, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        cmd = ["cargo", "build", "--offline", "--locked"] + (["--features", "oniguruma"] if onig else [])
        p = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise ToolError("the build failed:\n" + p.stdout[-4000:])
        with open(stamp, "w") as f:
            f.write(now)
    return os.path.join(target, "debug", "jstx"), os.path.join(target, "debug", "jst-cli")


# ------------------------------------------------------------------ TLC
class Tlc:
    def __init__(self, out, ok):
        self.out = out
        self.ok = ok
        m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
        self.transitions, self.states = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.lines = [json.loads(x) for x in re.findall(r'^("(?:[^"\\]|\\.)*")$', out, re.M)]

    def tagged(self, tag):
        return [json.loads(x[len(tag) + 1:]) for x in self.lines if x.startswith(tag + " ")]


def tlc(module, env, workdir, heap="3g", timeout=800, extra=()):
    os.makedirs(workdir, exist_ok=True)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env)
    scratch = os.path.join(workdir, "tmp")
    os.makedirs(scratch, exist_ok=True)
    cmd = ["java", "-Djava.io.tmpdir=" + scratch, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m", "-Dfile.encoding=UTF-8", "-DTLA-Library=" + SPEC,
           "-cp", TLA, "tlc2.TLC", "-workers", "1", "-noGenerateSpecTE", "-metadir", os.path.join(workdir, "md-%s-%d-%d" % (module, os.getpid(), time.time_ns())),
           "-config", os.path.join(SPEC, module + ".cfg"), *extra, os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, cwd=workdir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           text=True, encoding="utf-8", errors="replace")
    except subprocess.TimeoutExpired:
        raise ToolError("TLC ran out of time on %s" % module)
    return Tlc(p.stdout, p.returncode == 0 and "No error has been found" in p.stdout)


# ------------------------------------------------------------------ the real program
def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def count_lines(path):
    if not os.path.exists(path):
        return 0
    with open(path, "rb") as f:
        return sum(1 for _ in f)


def run_real(jstx, cases, obs, stall=15, whole=False):
    """All cases through the real program; calls that kill or hang it count as
    failed calls. After a few of those the rest is left out. -> the indexes of
    the cases with such calls"""
    if os.path.exists(obs):
        os.remove(obs)
    total = count_lines(cases)
    done, deaths = 0, []
    while done < total and len(deaths) < 3:
        p = subprocess.Popen([jstx, "exec", cases, obs, "--start", str(done)] + (["--whole"] if whole else []), preexec_fn=limits,
                             stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        last, since = done, time.time()
        while True:
            try:
                p.wait(1 if time.time() - since > .5 else .05)
                break
            except subprocess.TimeoutExpired:
                now = count_lines(obs)
                if now > last:
                    last, since = now, time.time()
                elif time.time() - since > stall:
                    p.kill()
                    p.wait()
                    break
        trim(obs)
        done = count_lines(obs)
        if done >= total:
            break
        deaths.append(done)
        with open(cases) as f:
            for _ in range(done):
                f.readline()
            case = json.loads(f.readline())
        with open(obs, "a") as f:
            f.write(json.dumps(one_by_one(jstx, case, os.path.dirname(obs), stall)) + "\n")
        done += 1
    return deaths


def trim(obs):
    """Drops a last line that was cut short."""
    if os.path.exists(obs):
        with open(obs, "rb+") as f:
            data = f.read()
            if data and not data.endswith(b"\n"):
                f.truncate(data.rfind(b"\n") + 1)


def one_by_one(jstx, case, workdir, stall):
    """One process for each call of a case, all at once."""
    jobs, open_ = [], []
    for i, part in enumerate(case["parts"]):
        for k, call in enumerate(part["calls"]):
            one = json.loads(json.dumps(case))
            for j, q in enumerate(one["parts"]):
                q["calls"] = [call] if j == i else []
            a, b = (os.path.join(workdir, "one.%d.%d.%d.%s" % (os.getpid(), i, k, x)) for x in ("in", "out"))
            with open(a, "w") as f:
                f.write(json.dumps(one) + "\n")
            if os.path.exists(b):
                os.remove(b)
            jobs.append((i, k, b, subprocess.Popen([jstx, "exec", a, b, "--whole"], preexec_fn=limits,
                                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
    end = time.time() + stall
    outs = {}
    for i, k, b, p in jobs:
        what = "aborted"
        try:
            p.wait(max(.1, end - time.time()))
        except subprocess.TimeoutExpired:
            what = "did not end"
            p.kill()
            p.wait()
        trim(b)
        outs[i, k] = {"r": "fail", "m": what}
        if count_lines(b):
            with open(b) as f:
                outs[i, k] = json.loads(f.readline())["parts"][i]["calls"][0]["out"]
    # the schemas in the model's form, without any call
    bare = json.loads(json.dumps(case))
    for q in bare["parts"]:
        q["calls"] = []
    a, b = (os.path.join(workdir, "one.%d.%s" % (os.getpid(), x)) for x in ("in", "out"))
    with open(a, "w") as f:
        f.write(json.dumps(bare) + "\n")
    if os.path.exists(b):
        os.remove(b)
    subprocess.run([jstx, "exec", a, b, "--whole"], check=True, timeout=60)
    with open(b) as f:
        res = json.loads(f.readline())
    for i, (q, p) in enumerate(zip(res["parts"], case["parts"])):
        q["calls"] = [dict(c, out=outs[i, k]) for k, c in enumerate(p["calls"])]
    return pieces(res)


def pieces(o, depth=40):
    """Deep values in pieces, as the harness writes them."""
    more = []

    def cut(v, d):
        if v["j"] not in "ao":
            return v
        if d == 0:
            x = cut(v, depth)
            more.append(x)
            return {"j": "@", "i": len(more)}
        k = v["j"]
        return {"j": k, k: [cut(x, d - 1) for x in v[k]] if isinstance(v[k], list) else {y: cut(x, d - 1) for y, x in v[k].items()}}
    for p in o["parts"]:
        p["schema"] = cut(p["schema"], depth)
        for c in p["calls"]:
            if c["out"]["r"] == "ok":
                c["out"]["v"] = cut(c["out"]["v"], depth)
    if more:
        o["more"] = more
    return o


def fresh_dir(path):
    if os.path.isdir(path):
        shutil.rmtree(path)
    os.makedirs(path)
    return path


def untag(v, more=()):
    j = v["j"]
    if j == "@":
        return untag(more[v["i"] - 1], more)
    if j == "n":
        return None
    if j == "f":
        return float(v["f"])
    if j == "a":
        return [untag(x, more) for x in (v["a"] if isinstance(v["a"], list) else [])]
    if j == "o":
        return {k: untag(x, more) for k, x in v["o"].items()} if isinstance(v["o"], dict) else {}
    return v[j]
