#!/usr/bin/env python3
"""Decides one property: gvc discharges every obligation of the contracts of the
property from /repo's current source; a bounded companion harness looks for a
concrete failing input. See DESIGN.md.

usage: check.py PROPERTY        (VERIF_TIER=quick|thorough, VERIF_SEED=n)
exit 0: held.  exit 1 + VIOLATION line: broken.
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time, hashlib

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
MOD = "github.com/google/xtoproto"
GO = "/opt/veriftools/go1.27.3/bin"


def env(extra=None):
    e = dict(os.environ)
    e["PATH"] = GO + ":" + e.get("PATH", "/usr/bin:/bin") + ":/usr/local/bin:/usr/bin:/bin"
    e.setdefault("HOME", "/root")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GO111MODULE="on", GOSUMDB="off", TZ="UTC")
    e.setdefault("GOCACHE", e["HOME"] + "/.cache/go-build")
    e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    e.setdefault("GOPATH", "/root/go")
    if extra:
        e.update(extra)
    return e


def run(cmd, timeout, **kw):
    """Runs cmd in its own process group; kills the group at the time limit."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        import signal
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return -9, out.decode("utf-8", "replace")


def build_gvc():
    """Builds the verifier unless an up to date binary exists."""
    h = hashlib.sha256()
    src = os.path.join(VERIF, "gvc")
    for f in sorted(os.listdir(src)):
        if f.endswith(".go") or f.startswith("go."):
            h.update(open(os.path.join(src, f), "rb").read())
    d = os.path.join(VERIF, ".build")
    os.makedirs(d, exist_ok=True)
    b = os.path.join(d, "gvc-" + h.hexdigest()[:16])
    if not os.path.exists(b):
        tmp = b + ".%d" % os.getpid()
        rc, out = run(["go", "build", "-o", tmp, "."], 600, cwd=src, env=env({"GOFLAGS": "-mod=mod"}))
        if rc != 0:
            raise RuntimeError("building the verifier: " + out)
        os.replace(tmp, b)
    return b


def pb_overlay(scratch):
    """Generates the protobuf code that /repo does not hold, when it is absent.
    Returns (dir or None)."""
    protos = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = [x for x in ds if x != ".git"]
        for f in fs:
            if f.endswith(".proto"):
                protos.append(os.path.relpath(os.path.join(d, f), REPO))
    missing = [p for p in protos if not os.path.exists(os.path.join(REPO, p[:-6] + ".pb.go"))]
    if not missing:
        return None
    out = os.path.join(scratch, "pb")
    root = os.path.join(scratch, "pbroot")
    os.makedirs(os.path.join(root, os.path.dirname(MOD)), exist_ok=True)
    os.symlink(REPO, os.path.join(root, MOD))
    os.makedirs(out, exist_ok=True)
    plugin = "/opt/vp/bin/protoc-gen-go"
    if not os.path.exists(plugin):
        plugin = os.path.join(scratch, "protoc-gen-go")
        run(["go", "build", "-o", plugin, "github.com/golang/protobuf/protoc-gen-go"], 300, cwd=REPO, env=env({"GOFLAGS": "-mod=readonly"}))
    for p in sorted(protos):
        run(["protoc", "-I" + root, "--plugin=protoc-gen-go=" + plugin,
             "--go_out=plugins=grpc,paths=source_relative,M%s/%s=%s/%s:%s" % (MOD, p, MOD, os.path.dirname(p), out),
             MOD + "/" + p], 120, env=env())
    res = os.path.join(scratch, "pbflat")
    shutil.move(os.path.join(out, MOD), res)
    return res


def known_findings(prop):
    """Lines of known_findings.txt: KNOWN property=.. kind=.. key=.. :: what"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN property=(\S+) kind=(\S+) key=(.*?) :: (.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append({"kind": m.group(2), "key": m.group(3), "what": m.group(4)})
    return out


def harness_files(prop):
    """Packages whose harness has tests of the property."""
    res = {}
    base = os.path.join(VERIF, "harness")
    for d, _, fs in os.walk(base):
        for f in fs:
            if not f.endswith("_test.go"):
                continue
            p = os.path.join(d, f)
            src = open(p).read()
            if re.search(r"func TestVerif_%s(_\w+)?\(" % prop, src):
                res.setdefault(os.path.relpath(d, base), []).append((p, re.search(r"^package (\w+)", src, re.M).group(1)))
    return res


def run_harness(prop, tier, seed, scratch, pb, result):
    """Runs the bounded companion harness; fills result."""
    result.update(fails=[], counts=[], notes=[], log="")
    files = harness_files(prop)
    for pkg, fl in sorted(files.items()):
        rep = {}
        pk = fl[0][1]
        helper = os.path.join(scratch, "helper_%s.go" % pkg.replace("/", "_"))
        with open(helper, "w") as h:
            h.write("package %s\n\n" % pk + open(os.path.join(VERIF, "harness", "helper.go.txt")).read())
        rep[os.path.join(REPO, pkg, "zz_verif_helper_test.go")] = helper
        for p, _ in fl:
            rep[os.path.join(REPO, pkg, "zz_verif_" + os.path.basename(p))] = p
        # support files of the harness directory that hold no test of their own
        d = os.path.join(VERIF, "harness", pkg)
        for f in os.listdir(d):
            if f.endswith("_support.go"):
                rep[os.path.join(REPO, pkg, "zz_verif_" + f[:-3] + "_test.go")] = os.path.join(d, f)
        if pb:
            for dd, _, fs in os.walk(pb):
                for f in fs:
                    q = os.path.join(dd, f)
                    rep[os.path.join(REPO, os.path.relpath(q, pb))] = q
        ov = os.path.join(scratch, "overlay_%s.json" % pkg.replace("/", "_"))
        json.dump({"Replace": rep}, open(ov, "w"))
        home = os.path.join(scratch, "home")
        os.makedirs(home, exist_ok=True)
        limit = 600 if tier == "thorough" else 240
        cmd = ["go", "test", "-vet=off", "-count=1", "-timeout=%ds" % limit, "-overlay", ov, "-run", "^TestVerif_%s(_|$)" % prop, "-v"]
        if "race" in open(fl[0][0]).read(200):
            cmd.insert(2, "-race")
        rc, out = run(cmd + ["./" + pkg], limit + 60, cwd=REPO,
                      env=env({"GOFLAGS": "-mod=readonly", "VERIF_SEED": str(seed), "VERIF_TIER": tier, "TMPDIR": scratch, "VERIF_OVERLAY": ov}))
        result["log"] += out[-20000:]
        got = False
        for l in out.splitlines():
            if l.startswith("VERIF-FAIL "):
                try:
                    result["fails"].append(json.loads(l[len("VERIF-FAIL "):]))
                    got = True
                except ValueError:
                    pass
            elif l.startswith("VERIF-COUNT "):
                result["counts"].append(json.loads(l[len("VERIF-COUNT "):]))
        if rc != 0 and not got:
            if "[build failed]" in out or "[setup failed]" in out:
                result["notes"].append("the harness of %s does not compile against the current source" % pkg)
            elif re.search(r"^(panic: test timed out|.*signal: killed)", out, re.M) or rc == -9:
                result["notes"].append("the harness of %s ran out of time" % pkg)
            elif re.search(r"WARNING: DATA RACE", out):
                result["fails"].append({"property": prop, "key": "data-race", "input": "concurrent calls of the harness", "detail": out[-6000:]})
            elif re.search(r"^(panic: |fatal error: )", out, re.M):
                result["fails"].append({"property": prop, "key": "crash", "input": "see detail", "detail": out[-6000:]})
            else:
                result["notes"].append("the harness of %s failed without a report: %s" % (pkg, out[-500:]))


def main():
    if sys.argv[1] == "--setup":
        build_gvc()
        return 0
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    try:
        return decide(prop, tier, seed, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(prop, tier, seed, t0, scratch):
    gvc = build_gvc()
    pb = pb_overlay(scratch)
    h = {}
    th = threading.Thread(target=run_harness, args=(prop, tier, seed, scratch, pb, h))
    th.start()
    rep_path = os.path.join(scratch, "report.json")
    cmd = [gvc, "verify", "-repo", REPO, "-contracts", os.path.join(VERIF, "contracts"), "-property", prop, "-json", rep_path,
           "-timeout", "60" if tier == "quick" else "180"]
    if pb:
        cmd += ["-pb", pb]
    rc, out = run(cmd, 840 if tier == "quick" else 3000, env=env({"GOFLAGS": "-mod=readonly"}))
    th.join()
    rep = {}
    if os.path.exists(rep_path):
        rep = json.load(open(rep_path))
    known = known_findings(prop)

    def is_known(kind, key):
        for k in known:
            if k["kind"] == kind and k["key"] == key:
                k["seen"] = True
                return True
        return False

    bad_inputs = [f for f in h["fails"] if not is_known("input", f.get("key", ""))]
    bad_obls = []
    proof_ran = bool(rep.get("functions"))
    for f in rep.get("functions") or []:
        st = f["status"]
        if st in ("verified", "trusted", "missing"):
            continue
        if st == "failed":
            n = 0
            for o in f.get("failed") or []:
                key = "%s: %s" % (f["function"], o["name"].split("\n")[0])
                n += 1
                if not is_known("obligation", key):
                    bad_obls.append({"obligation": key, "status": o["status"], "at": o.get("pos", ""), "trace": o.get("trace"), "model": o.get("model"), "goal": o.get("goal"), "detail": o.get("detail")})
            if n == 0:
                bad_obls.append({"obligation": f["function"], "status": st, "detail": f.get("detail", "")})
        else:
            bad_obls.append({"obligation": f["function"] + ": " + st, "status": st, "detail": f.get("detail", "")})
    if not proof_ran:
        bad_obls.append({"obligation": "verification run", "status": "error", "detail": rep.get("error") or out[-2000:]})
    elif not rep.get("ok") and not bad_obls and not any(k.get("seen") for k in known):
        bad_obls.append({"obligation": "verification run", "status": "error", "detail": rep.get("error") or out[-2000:]})

    # evidence -------------------------------------------------------------
    fns = rep.get("functions") or []
    trusted = ["gvc (contract verifier in /verif/gvc) and the SMT solvers z3 5.3.2, z3 4.8.12, cvc5 1.1.2",
               "golang.org/x/tools/go/ssa as the translation of the source; the Go compiler"]
    trusted += ["assumed contract: " + x for x in rep.get("trusted") or []]
    trusted += ["built-in model: " + x for x in rep.get("models") or []]
    ev = sum(c.get("evaluations", 0) for c in h["counts"])
    cov = {
        "obligations": rep.get("obligations", 0) + rep.get("trivial", 0),
        "discharged": rep.get("discharged", 0) + rep.get("trivial", 0),
        "obligations_sent_to_solvers": rep.get("obligations", 0),
        "checker_cmd": "gvc verify -property " + prop,
        "trusted_base": trusted,
        "functions_under_contract": [f["function"] + " (" + f["status"] + ")" for f in fns],
        "inlined": rep.get("inlined") or [],
        "solver_ms": rep.get("solver_ms") or {},
        "discharged_by": rep.get("discharged_by") or {},
        "verifier_notes": rep.get("notes") or [],
        "bounded_companion": {"label": "bounded; never counted as proved", "evaluations": ev,
                              "distinct": sum(c.get("distinct", 0) for c in h["counts"]),
                              "samples": [s for c in h["counts"] for s in (c.get("samples") or [])][:6], "notes": h["notes"]},
        "undischarged": [b["obligation"] for b in bad_obls][:50],
        "known_findings_seen": [k["what"] for k in known if k.get("seen")],
    }
    evidence = {"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
                "assumptions": ASSUMPTIONS, "wall_s": round(time.time() - t0, 2),
                "violations": len(bad_inputs) + len(bad_obls)}
    json.dump(evidence, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)

    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for f in fns:
        print("%-11s %s" % (f["status"], f["function"]))
    print("%s: %d/%d obligations discharged, %d bounded companion cases, %.1fs" % (prop, cov["discharged"], cov["obligations"], ev, time.time() - t0))
    for n in h["notes"]:
        print("note: " + n)
    if not bad_inputs and not bad_obls:
        return 0
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, prop + ".json")
    json.dump({"property": prop, "failing_inputs": bad_inputs, "failed_obligations": bad_obls, "verifier_output": out[-20000:], "harness_output": h["log"][-8000:]}, open(rp, "w"), indent=1)
    for f in bad_inputs[:5]:
        print("failing input [%s]: %s -- %s" % (f.get("key"), f.get("input", "")[:300], f.get("detail", "")[:300]))
    for b in bad_obls[:10]:
        print("failed obligation: %s (%s) %s" % (b["obligation"], b["status"], (b.get("detail") or "")[:200]))
    if bad_inputs:
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    else:
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
    return 1


ASSUMPTIONS = [
    "Go integers are 64-bit machine integers with exact wraparound (conversions and shifts included); no overflow is assumed away",
    "partial correctness: termination is not proved (the companion harness reports a call that hangs)",
    "strings and slices are shorter than 2^63 bytes; memory allocation succeeds",
    "a function is verified as if no other goroutine runs; shared state is separately proved to be accessed only under its lock",
    "function values passed by the caller are assumed to release the locks they take",
]

if __name__ == "__main__":
    sys.exit(main())
