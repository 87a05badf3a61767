"""The instrumented build: memfs with scheduler-controlled locks and yield points, by a build overlay."""
import json, os, subprocess


def make(tmp, harness, repo):
    from engine import GOENV, ToolError
    out = os.path.join(tmp, "instr")
    os.makedirs(out, exist_ok=True)
    p = subprocess.run(["go", "run", os.path.join(harness, "testdata/instr/instr.go"), os.path.join(repo, "memfs"), out,
                        "github.com/dpeckett/archivefs/vsync"], cwd=harness, env=GOENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("instrumenting memfs failed: " + p.stdout)
    rep = {os.path.join(repo, "vsync/vsync.go"): os.path.join(harness, "testdata/vsync/vsync.go")}
    for f in p.stdout.split():
        rep[os.path.join(repo, "memfs", f)] = os.path.join(out, f)
    path = os.path.join(tmp, "overlay.json")
    with open(path, "w") as o:
        json.dump({"Replace": rep}, o)
    return path
