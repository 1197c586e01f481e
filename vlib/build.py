"""Builds the harness against the working tree of /repo."""
import os, re, shutil, subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class InfraError(Exception):
    pass


def go_env():
    env = dict(os.environ)
    env.update(GOFLAGS="-mod=mod", GOPROXY="off", GONOSUMDB="*", GONOSUMCHECK="1",
               GOTOOLCHAIN="local", GOWORK="off", CGO_ENABLED=env.get("CGO_ENABLED", "0"))
    return env


def build(work, race=False):
    """Returns the path of the harness binary, built in directory work."""
    src = os.path.join(work, "harness-src")
    shutil.copytree(os.path.join(VERIF, "harness"), src)
    mod = open(os.path.join(REPO, "go.mod")).read()
    mod = re.sub(r"^module .*$", "module verif/harness", mod, flags=re.M)
    mod += "\nrequire github.com/sourcenetwork/zanzi v0.0.0\n"
    mod += "\nreplace github.com/sourcenetwork/zanzi => %s\n" % REPO
    open(os.path.join(src, "go.mod"), "w").write(mod)
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(src, "go.sum"))
    out = os.path.join(work, "harness")
    env = go_env()
    cmd = ["go", "build", "-o", out]
    if race:
        env["CGO_ENABLED"] = "1"
        cmd.append("-race")
    r = subprocess.run(cmd + ["."], cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise InfraError("harness does not build:\n" + r.stdout[-4000:])
    return out


def build_program(work, name):
    """Builds a program of the repository next to the harness."""
    out = os.path.join(work, name)
    if not os.path.exists(out):
        r = subprocess.run(["go", "build", "-o", out, "github.com/sourcenetwork/zanzi/cmd/" + name], cwd=os.path.join(work, "harness-src"), env=go_env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise InfraError(name + " does not build:\n" + r.stdout[-4000:])
    return out
