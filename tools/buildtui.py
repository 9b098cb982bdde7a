"""Builds bbni from /repo's working tree with the terminal replaced by a screen in memory (bridge/bridge.go).

Only the two terminal libraries are changed, in scratch copies; /repo's own code is compiled as it is.
"""
import os
import re
import shutil
import tempfile

BRIDGE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "bridge", "bridge.go")


def _module(gomod, name):
    m = re.search(r"^\s*(?:require\s+)?%s\s+(\S+)" % re.escape(name), gomod, re.M)
    return m.group(1) if m else None


def _patch(path, old, new, infra):
    with open(path) as f:
        s = f.read()
    if s.count(old) != 1:
        raise infra("cannot adapt %s: %r" % (path, old))
    with open(path, "w") as f:
        f.write(s.replace(old, new))


def build(repo, out, env, sh, infra):
    tmp = tempfile.mkdtemp(prefix="vx-tui-")
    try:
        gomod = open(os.path.join(repo, "go.mod")).read()
        dirs = {}
        for name in ("github.com/gdamore/tcell/v2", "github.com/rivo/tview"):
            ver = _module(gomod, name)
            src = os.path.join(env["GOMODCACHE"], name + "@" + str(ver))
            if not os.path.isdir(src):
                raise infra("module %s is not in the cache" % src)
            dst = os.path.join(tmp, os.path.basename(os.path.dirname(name)) + "-" + os.path.basename(name))
            shutil.copytree(src, dst, ignore=shutil.ignore_patterns("demos", "_demos", "*_test.go", "*.gif", "*.png"), copy_function=shutil.copyfile)
            for root, ds, _ in os.walk(dst):
                os.chmod(root, 0o755)
            dirs[name] = dst
        tcell, tview = dirs["github.com/gdamore/tcell/v2"], dirs["github.com/rivo/tview"]
        shutil.copyfile(BRIDGE, os.path.join(tcell, "vx_bridge.go"))
        _patch(os.path.join(tcell, "screen.go"), "func NewScreen() (Screen, error) {", "func NewScreen() (Screen, error) {\n\tif true {\n\t\treturn newVXScreen()\n\t}", infra)
        app = os.path.join(tview, "application.go")
        _patch(app, "var DoubleClickInterval = 500 * time.Millisecond", "var DoubleClickInterval = time.Duration(0)", infra)
        _patch(app, "\t\t\tcase *tcell.EventError:\n", "\t\t\tcase *tcell.VXSnap:\n\t\t\t\tevent.Take()\n\t\t\tcase *tcell.EventError:\n", infra)
        mod = os.path.join(tmp, "go.mod")
        with open(mod, "w") as f:
            f.write(gomod + "".join("\nreplace %s => %s\n" % kv for kv in sorted(dirs.items())))
        shutil.copyfile(os.path.join(repo, "go.sum"), os.path.join(tmp, "go.sum"))
        e = dict(env)
        e["GOFLAGS"] = "-mod=mod -buildvcs=false"
        rc, o = sh(["go", "build", "-modfile", mod, "-trimpath", "-o", out, "./cmd/bbni"], repo, e)
        if rc != 0:
            raise infra("building bbni fails:\n" + o)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
