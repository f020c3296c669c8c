#!/usr/bin/env python3
"""build.py NAME OUT: build harness/cmd/NAME against /repo's working tree.

The harness is laid over /repo as internal/zzverif/, so that it can import the
internal packages; nothing is written in /repo."""
import json, os, re, shutil, subprocess, sys, threading

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BASE = os.path.join(REPO, "internal", "zzverif")

def env():
    e = dict(os.environ)
    for k in ("GOROOT", "GOFLAGS", "GOPROXY"):
        e.pop(k, None)
    root = "/opt/veriftools/go1.23.12"
    e.update(HOME=e.get("HOME", "/root"), GOROOT=root,
             PATH=root + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
             GOCACHE=e.get("VERIF_GOCACHE", "/root/.cache/go-build"),
             GOENV="off", GOWORK="off", GOTOOLCHAIN="local", GOPROXY="off",
             GOFLAGS="-mod=mod", GOTELEMETRY="off", TZ="UTC")
    return e

def overlay(extra=None):
    rep = {}
    h = os.path.join(V, "harness")
    for d, ds, fs in os.walk(h):
        for f in fs:
            if f.endswith(".go"):
                p = os.path.join(d, f)
                rep[os.path.join(BASE, os.path.relpath(p, h))] = p
    rep.update(extra or {})
    return rep

def build(name, out, extra=None, flags=()):
    ov = out + ".overlay.json"
    with open(ov, "w") as f:
        json.dump({"Replace": overlay(extra)}, f)
    return subprocess.run(["go", "build", "-overlay", ov, *flags, "-o", out, "./internal/zzverif/cmd/" + name],
                          cwd=REPO, env=env())

MODULE = "github.com/gernest/requiemdb"
# packages with a scheduling point before every statement
POINTS = "service,store,shards,translate,seq,samples,dataframe,snippets"
# checks that are built from instrumented code: with race detection or not
INSTRUMENTED = {"r06": True, "r07": True, "r08": False, "r10": False}
# what to leave out, in turn, when instrumented code does not compile
FEATURES = ["sync,chan,time,ristretto,map,lease,split", "sync,chan,time,ristretto,map,lease", "sync,chan,time,map,lease", "sync,chan,time"]

def instrument(out, features, points):
    """Rewritten copies of the packages of the server; see tools/instr."""
    work = out + ".instr"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    tool = out + ".tool"
    e = dict(env(), GOFLAGS="")
    if subprocess.run(["go", "build", "-o", tool, "."], cwd=os.path.join(V, "tools", "instr"), env=e).returncode:
        return None
    p = subprocess.run([tool, "-repo", REPO, "-out", work, "-roots", "./internal/service", "-points", points, "-feat", features],
                       env=env(), stdout=subprocess.PIPE, text=True)
    return json.loads(p.stdout) if p.returncode == 0 else None

def build_instrumented(name, out, race, features, points):
    extra = instrument(out, features, points)
    if extra is None:
        return 1
    ov = out + ".overlay.json"
    with open(ov, "w") as f:
        json.dump({"Replace": overlay(extra)}, f)
    cmd = ["go", "build", "-overlay", ov, "-o", out]
    if race:
        # the code of the server is watched; its dependencies and the harness are not
        cmd += ["-race", "-gcflags=all=-race=false", "-gcflags=%s/internal/...=-race=true" % MODULE,
                "-gcflags=%s/internal/zzverif/...=-race=false" % MODULE]
    p = subprocess.run(cmd + ["./internal/zzverif/cmd/" + name], cwd=REPO, env=env(), stderr=subprocess.PIPE, text=True)
    if p.returncode:
        print("instrumented build (%s; %s) failed:\n%s" % (features, points, p.stderr[:1500]), file=sys.stderr)
    return p.returncode

def first(name, out, race):
    for points in (POINTS, ""):
        for features in FEATURES:
            if build_instrumented(name, out, race, features, points) == 0:
                return 0
    return 1

# checks in which packages use the file system through harness/shim/fos: all
# packages of the repository that the named one depends on
FILES = {"r26": "./internal/commands/query"}

def with_files(name, out):
    work = out + ".files"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    p = subprocess.run(["go", "list", "-deps", "-f", "{{if not .Standard}}{{.ImportPath}}|{{.Dir}}|{{join .GoFiles \",\"}}{{end}}", FILES[name]],
                       cwd=REPO, env=env(), stdout=subprocess.PIPE, text=True)
    if p.returncode:
        return 1
    extra = {}
    for l in p.stdout.splitlines():
        imp, d, fs = (l.split("|") + ["", ""])[:3]
        if not imp.startswith(MODULE + "/"):
            continue
        for f in fs.split(","):
            src = os.path.join(d, f)
            text = open(src, encoding="utf-8", errors="surrogateescape").read()
            new = re.sub(r'(?m)^(\s*(?:import\s+)?)(?:(\w+)\s+)?"os"[ \t]*(//.*)?$',
                         lambda m: '%s%s "%s/internal/zzverif/shim/fos"' % (m[1], m[2] or "os", MODULE), text)
            if new != text:
                dst = os.path.join(work, "%d.go" % len(extra))
                open(dst, "w", encoding="utf-8", errors="surrogateescape").write(new)
                extra[src] = dst
    return build(name, out, extra).returncode

# checks that drive the flush timer of the service, see harness/shim/rtime
TIMED = {"r01", "r02", "r03", "r04", "r05", "r09", "r12", "r28", "r30"}

def with_ticks(name, out):
    work = out + ".ticks"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    p = subprocess.run(["go", "list", "-deps", "-f", "{{if not .Standard}}{{.ImportPath}}|{{.Dir}}|{{join .GoFiles \",\"}}{{end}}", "./internal/service"],
                       cwd=REPO, env=env(), stdout=subprocess.PIPE, text=True)
    if p.returncode:
        return 1
    extra = {}
    for l in p.stdout.splitlines():
        imp, d, fs = (l.split("|") + ["", ""])[:3]
        if not imp.startswith(MODULE + "/") or "/zzverif" in imp:
            continue
        for f in fs.split(","):
            src = os.path.join(d, f)
            text = open(src, encoding="utf-8", errors="surrogateescape").read()
            if not re.search(r"\b(NewTicker|Tick)\(", text):
                continue
            new = re.sub(r'(?m)^(\s*(?:import\s+)?)(?:(\w+)\s+)?"time"[ \t]*(//.*)?$',
                         lambda m: '%s%s "%s/internal/zzverif/shim/rtime"' % (m[1], m[2] or "time", MODULE), text)
            if new != text:
                dst = os.path.join(work, "%d.go" % len(extra))
                open(dst, "w", encoding="utf-8", errors="surrogateescape").write(new)
                extra[src] = dst
    if not extra:
        return 1
    return build(name, out, extra, ["-ldflags", "-X %s/internal/zzverif/shim/rtime.on=1" % MODULE]).returncode

# checks that need a program of the repository next to their own, out.NAME
PROGRAMS = {"r27": ("./cmd/rq", ".rq"), "r31": ("./cmd/rq", ".rq")}

def prepare(name, out):
    """Build the check `name`, with whatever it needs besides its binary."""
    if name in PROGRAMS:
        pkg, ext = PROGRAMS[name]
        r = subprocess.run(["go", "build", "-o", out + ext, pkg], cwd=REPO, env=env())
        if r.returncode:
            return r.returncode
    if name in FILES:
        return with_files(name, out) and build(name, out).returncode
    if name in TIMED:
        return with_ticks(name, out) and build(name, out).returncode
    if name not in INSTRUMENTED:
        return build(name, out).returncode
    t = None
    if INSTRUMENTED[name]:
        # another binary, out.race, reports data races
        t = threading.Thread(target=first, args=(name, out + ".race", True))
        t.start()
    r = first(name, out, False)
    if r:
        r = build(name, out).returncode
    if t:
        t.join()
    return r

if __name__ == "__main__":
    sys.exit(prepare(sys.argv[1], sys.argv[2]))
