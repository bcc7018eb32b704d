"""Shared machinery of the checks: building, running drivers, running TLC."""
import json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.environ.get("NNV_BUILD", os.path.join(V, ".build"))
PY = "/opt/nntile-venv/bin/python"
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """the check itself failed: neither held nor violated"""


def build():
    r = subprocess.run([os.path.join(V, "bin/build.sh")], capture_output=True, text=True)
    if r.returncode:
        raise CheckError("build failed\n" + r.stdout + r.stderr)


def env(shim=True, extra=None):
    e = dict(os.environ)
    e.update(STARPU_SILENT="1", STARPU_FXT_TRACE="0", STARPU_HOME=os.path.join(B, "starpu"), OMP_NUM_THREADS="1",
             OPENBLAS_NUM_THREADS="1", STARPU_WORKERS_NOBIND="1", STARPU_MAIN_THREAD_NOBIND="1",
             PYTHONPATH=os.path.join(B, "py") + ":" + os.path.join(V, "drivers"), PYTHONDONTWRITEBYTECODE="1",
             LD_LIBRARY_PATH=os.path.join(B, "lib"))
    if shim: e["LD_PRELOAD"] = os.path.join(B, "shim.so")
    e.update(extra or {})
    return e


def run_driver(argv, out, shim=True, extra=None, timeout=400):
    """-> (rc, text).  rc is negative for a signal, 'timeout' when time ran out"""
    a = [x.replace("@OUT", out).replace("@V", V).replace("@B", B) for x in argv]
    if a[0].endswith(".py"): a = [PY, os.path.join(V, "drivers", a[0])] + a[1:]
    try:
        r = subprocess.run(a, env=env(shim, extra), capture_output=True, text=True, errors="replace", timeout=timeout,
                           cwd=os.path.dirname(out))
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as x:
        return "timeout", "", (x.stderr or b"").decode(errors="replace") if isinstance(x.stderr, bytes) else ""


STAT = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def tlc(module, cfg=None, envx=None, workdir=None, workers="1", args=(), timeout=600, mem="3g"):
    """run TLC; returns (rc, output, generated, distinct)"""
    md = tempfile.mkdtemp(prefix="tlc", dir=workdir)
    e = dict(os.environ); e.update(envx or {})
    cmd = ["java", "-XX:+UseSerialGC" if workers == "1" else "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + mem, "-cp",
           os.path.join(B, "tlajava") + ":" + TLA, "tlc2.TLC", "-workers", workers, "-nowarning", "-noGenerateSpecTE", "-metadir", md,
           "-config", os.path.join(V, "spec", (cfg or module) + ".cfg")] + list(args) + \
          [os.path.join(V, "spec", module + ".tla")]
    try:
        r = subprocess.run(cmd, env=e, capture_output=True, text=True, timeout=timeout, cwd=md)
        rc, out = r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as x:
        rc, out = "timeout", (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
    finally:
        shutil.rmtree(md, ignore_errors=True)
    m = STAT.findall(out)
    g, d = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return rc, out, g, d


REJ = re.compile(r'"TRACE-REJECTED", (\d+), (.*)>>')


def validate(module, trace, workdir, timeout=600):
    """check a trace file against a trace specification -> dict"""
    clean = trace + ".t"
    with open(trace, errors="replace") as f, open(clean, "w") as g:
        lines = [l for l in f if l.startswith("{") and l.endswith("}\n")]
        g.writelines(lines)
    rc, out, gen, dist = tlc(module, envx={"TRACE": clean}, workdir=workdir, timeout=timeout)
    if rc == "timeout" or '"TRACE-DONE"' not in out or re.search(r"^Error:", out, re.M):
        raise CheckError("TLC failed on %s %s rc=%s\n%s" % (module, trace, rc, out[-3000:]))
    rej = [(int(m.group(1)), m.group(2)) for m in REJ.finditer(out)]
    return dict(lines=len(lines), rejected=rej, generated=gen, distinct=dist, text=lines)


CASE = re.compile(r'"k":"case"|"w":"case')


def case_of(lines, n):
    """the lines of the case containing 1-based line n, up to n"""
    i = n - 1
    while i > 0 and not CASE.search(lines[i]): i -= 1
    return [json.loads(l) for l in lines[max(i, n - 400):n]]
