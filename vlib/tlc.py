"""Runs TLC and reads what it printed."""
import os, re, shutil, subprocess, tempfile

from .build import VERIF, InfraError

JAR = "/opt/veriftools/tla/tla2tools.jar"
SPEC = os.path.join(VERIF, "spec")


def _classpath():
    d = os.path.dirname(JAR)
    jars = [JAR] + sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".jar") and f != os.path.basename(JAR))
    return ":".join(jars)


def tlc(work, module, cfg, env=None, workers=8, timeout=600, args=(), heap="6g", files=None):
    """Returns (text, exit status) of a TLC run over a copy of the specification."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=work)
    for f in os.listdir(SPEC):
        if f.endswith((".tla", ".cfg")):
            shutil.copy(os.path.join(SPEC, f), d)
    for f, text in (files or {}).items():
        with open(os.path.join(d, f), "w") as h:
            h.write(text)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + d, "-cp", _classpath(), "tlc2.TLC",
           "-metadir", os.path.join(d, "states"), "-workers", str(workers), "-config", cfg] + list(args) + [module]
    try:
        r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as x:
        raise InfraError("TLC on %s did not end in %s s" % (module, timeout))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out, rc


def stats(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)
