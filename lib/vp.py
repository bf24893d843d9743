"""
Machinery shared by all checks: builds the Java overrides of module Rat, model checks the
specification, generates behaviours from it with TLC, replays them into the code in /repo and
has TLC validate what was recorded.  The verdict is entirely TLC's.
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
TLA = "/opt/veriftools/tla"
PYPY = "/opt/venv/bin/python"
CPUS = 8


class Broken(Exception):
    """the machinery itself failed: no verdict"""


def classes():
    """compiles the overrides of module Rat (once per source version)"""
    src = os.path.join(SPEC, "java", "Rat.java")
    h = hashlib.md5(open(src, "rb").read()).hexdigest()[:12]
    out = os.path.join(ROOT, "build", "classes-" + h)
    if not os.path.exists(os.path.join(out, "Rat.class")):
        tmp = out + f".{os.getpid()}"
        os.makedirs(tmp, exist_ok=True)
        subprocess.run(["javac", "-cp", f"{TLA}/tla2tools.jar", "-d", tmp, src], check=True)
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return out


def tlc(module, cfg, args=(), env=None, timeout=800, heap="3g", workdir=None):
    """runs TLC; returns (exit code, output)"""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=workdir)
    gc = "-XX:+UseParallelGC" if "8" in args else "-XX:+UseSerialGC"
    cmd = ["java", gc, f"-Xmx{heap}", "-Xss64m", "-cp",
           f"{classes()}:{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar", "tlc2.TLC",
           "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *args, module + ".tla"]
    e = {**os.environ, **(env or {})}
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken(f"TLC {module} {cfg}: no answer within {timeout} s")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


def stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def model_check(module, cfg, workdir, timeout=700):
    """exhaustive exploration; returns dict with the outcome"""
    t = time.time()
    rc, out = tlc(module, cfg, ["-workers", "8"], timeout=timeout, workdir=workdir, heap="10g")
    gen, dist = stats(out)
    ok = rc == 0 and "No error has been found" in out and dist > 0
    viol = re.findall(r"Invariant (\w+) is violated|Action property (\w+) is violated|Temporal properties were violated", out)
    if not ok and not viol:
        raise Broken(f"TLC {module} {cfg} failed:\n{out[-3000:]}")
    return {"module": module, "config": cfg, "states": dist, "transitions": gen, "ok": ok,
            "violated": [a or b for a, b in viol] if viol else [], "wall_s": round(time.time() - t, 1), "out": out if not ok else ""}


def seed_of(*parts):
    return int(hashlib.md5(":".join(map(str, parts)).encode()).hexdigest()[:8], 16) % (2 ** 31)


def generate(module, cfg, profile, num, depth, seed, workdir, mode="simulate", timeout=700):
    """behaviours of the generator specification, as plans"""
    env = {"PROFILE": profile}
    if mode == "simulate":
        args = ["-workers", "1", "-seed", str(seed), "-simulate", f"num={num}", "-depth", str(depth)]
    else:
        args = ["-workers", "1", "-seed", str(seed)]
    rc, out = tlc(module, cfg, args, env=env, timeout=timeout, workdir=workdir)
    plans = []
    for line in out.splitlines():
        if line.startswith('"PLAN '):
            plans.append(line[6:-1].replace('\\"', '"').replace("\\\\", "\\"))
    if not plans or "Error:" in out:
        raise Broken(f"generator {module} {profile}: {out[-2000:]}")
    if mode != "simulate":
        if "No error has been found" not in out:
            raise Broken(f"generator {module} {profile}: {out[-2000:]}")
        plans.sort()
    return plans, stats(out)


def driver_env():
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "LANG", "TMPDIR")}
    e.update(HOME="/root", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
             OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
             PYTHONPATH=f"{REPO}:{REPO}/benchmark:{ROOT}/drivers", LC_ALL="C.UTF-8")
    return e


def replay(driver, plans, workdir, timeout=800):
    """runs the plans against the code; returns the recorded behaviours (lines of JSON, by tid)"""
    n = max(1, min(CPUS, len(plans)))
    procs = []
    for k in range(n):
        src = os.path.join(workdir, f"plan{k}.ndjson")
        dst = os.path.join(workdir, f"trace{k}.ndjson")
        with open(src, "w") as f:
            for p in plans[k::n]:
                f.write(p + "\n")
        if os.path.exists(dst):
            os.remove(dst)
        procs.append((subprocess.Popen([PYPY, os.path.join(ROOT, "drivers", driver + ".py"), src, dst], env=driver_env(),
                                       cwd=workdir, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True), dst))
    lines = []
    end = time.time() + timeout
    errs = []
    # drain stderr of all
    outs = [None] * n
    def drain(k):
        try:
            outs[k] = procs[k][0].communicate(timeout=max(1, end - time.time()))[1]
        except subprocess.TimeoutExpired:
            procs[k][0].kill()
            outs[k] = procs[k][0].communicate()[1] + "\ntimeout"
    th = [threading.Thread(target=drain, args=(k,)) for k in range(n)]
    [t.start() for t in th]; [t.join() for t in th]
    for k, (p, dst) in enumerate(procs):
        if p.returncode != 0:
            errs.append(f"driver {driver} exit {p.returncode}: {(outs[k] or '')[-1500:]}")
        if os.path.exists(dst):
            lines += [x for x in open(dst).read().split("\n") if x]
    return lines, errs


def validate(module, lines, workdir, timeout=800, chunk=600):
    """TLC judges the recorded behaviours: list of (tid, step, op, clause)"""
    fails, total = [], [0, 0]
    end, odd = time.time() + 120, []
    def one(args):
        i, part = args
        path = os.path.join(workdir, f"traces{i}.ndjson")
        with open(path, "w") as f:
            f.write("\n".join(part) + "\n")
        rc, out = tlc(module, module + ".cfg", ["-workers", "2"], env={"TRACES": path}, timeout=timeout, workdir=workdir, heap="4g")
        os.remove(path)
        ok = rc == 0 and "No error has been found" in out and '<<"JUDGED"' in out
        if not ok:
            if "Error: " not in out or "Parsing or semantic" in out or (time.time() > end and not odd):
                raise Broken(f"validation by {module}: {out[:800]}\n...\n{out[-1500:]}")
            # a behaviour outside of what the specification can express (it never happens on code that conforms): find it
            if len(part) == 1:
                b = json.loads(part[0])
                if not odd:
                    print(f"TLC cannot evaluate behaviour {b['tid']}: {' '.join(out[out.index('Error: '):].split())[:400]}", file=sys.stderr)
                odd.append(b["tid"])
                return [(b["tid"], len(b["evs"]), "evaluation", "crash")], (0, 0)
            rs, tot = [], (0, 0)
            for k, sub in enumerate((part[:len(part) // 2], part[len(part) // 2:])):
                if len(odd) < 4 and (time.time() < end or not odd):
                    r, t = one((f"{i}{k}", sub))
                    rs += r
                    tot = (tot[0] + t[0], tot[1] + t[1])
            return rs, tot
        r = [(int(a), int(b), c, d) for a, b, c, d in
             re.findall(r'<<\s*"FAIL",\s*(\d+),\s*(\d+),\s*"([^"]*)",\s*"([^"]*)"\s*>>', out)]
        return r, stats(out)
    k = max(1, min(4, (len(lines) + 49) // 50))
    size = min(chunk, (len(lines) + k - 1) // k)
    parts = [(i, lines[i:i + size]) for i in range(0, len(lines), size)]
    with ThreadPoolExecutor(4) as ex:
        for r, (g, d) in ex.map(one, parts):
            fails += r
            total[0] += d
            total[1] += g
    return sorted(set(fails)), total
