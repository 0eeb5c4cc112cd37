#!/usr/bin/env python3
"""Runs the check of one property: builds its harness from /repo's working
tree under each sanitizer configuration, runs it, judges what the monitors and
sanitizers reported, and writes the evidence file.

Exit 0: held on everything explored.  1: VIOLATION line printed.  3: no verdict.
"""
import argparse, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from checks import CHECKS

VERIF = vbuild.VERIF
HANG_S = 150
ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:"
                    "allocator_may_return_null=1:strict_string_checks=1:handle_abort=0:max_allocation_size_mb=3000",
    "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=0",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=0:report_signal_unsafe=0:second_deadlock_stack=1:history_size=4:"
                    "suppressions=" + VERIF + "/lib/tsan.supp:detect_deadlocks=1",
}


def known():
    out = {}
    p = f"{VERIF}/known/findings.jsonl"
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                k = json.loads(line)
                if k.get("status") == "known":
                    out.setdefault(k["property"], []).append(k)
    return out


REPO_FRAME = re.compile(r"/repo/([A-Za-z0-9_./-]+?):(\d+)")


def san_key(block, prefix):
    """A key for a sanitizer report: its kind and the first /repo frames."""
    m = re.search(r"(?:ERROR|WARNING): \w+Sanitizer: ([a-zA-Z0-9 _-]+)", block)
    kind = (m.group(1).strip() if m else "report").split(" on ")[0].split(" (")[0]
    fr = []
    for line in block.splitlines():
        f = re.match(r"\s*#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/repo/\S+?):(\d+)", line)
        if f:
            name = re.sub(r"[<(].*", "", f.group(1))
            item = os.path.basename(f.group(2)) + "/" + name
            if item not in fr:
                fr.append(item)
        else:  # templates in headers come without line information
            f = re.match(r"\s*#\d+ (?:0x[0-9a-f]+ in )?(?:[\w:*& ]+ )?((?:aslam|aslamcv|libKAZE|timing|statistics)\w*::[\w:~]+)", line)
            if f and "hpp/" + f.group(1) not in fr:
                fr.append("hpp/" + f.group(1))
        if len(fr) >= 2:
            break
    return f"{prefix}:{kind}:" + "+".join(fr)


def san_blocks(text, name):
    pat = {"asan": r"==\d+==ERROR: AddressSanitizer", "tsan": r"WARNING: ThreadSanitizer"}[name]
    out = []
    for m in re.finditer(pat, text):
        end = text.find("SUMMARY:", m.start())
        end = len(text) if end < 0 else text.find("\n", end) + 1 or len(text)
        out.append(text[m.start():end])
    return out


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.vios, self.incomplete, self.results = [], [], []

    def add(self, key, what, **kw):
        self.vios.append(dict(key=key, what=what, **kw))


def progress(out):
    try:
        b = open(f"{out}/progress.bin", "rb").read()
        part = b[:64].split(b"\0")[0].decode()
        idx = struct.unpack("<q", b[64:72])[0]
        det = b[72:].split(b"\0")[0].decode(errors="replace")
        return part, idx, det
    except Exception:
        return "", -1, ""


def execute(run, exe, config, timeout, out, extra):
    """One process; returns (rc, None on timeout or "hang"; stderr text)."""
    os.makedirs(out, exist_ok=True)
    for f in ("result.json", "violations.jsonl"):
        if os.path.exists(f"{out}/{f}"):
            os.unlink(f"{out}/{f}")
    env = dict(os.environ)
    env.update(ENV)
    env["OMP_NUM_THREADS"] = "1"
    tmp = f"{out}/tmp"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    env["TMPDIR"] = tmp
    cmd = [exe, "--property", run.prop, "--tier", run.tier, "--seed", str(run.seed), "--out", out,
           "--config", config] + extra
    with open(f"{out}/stderr", "wb") as err, open(f"{out}/stdout", "wb") as so:
        p = subprocess.Popen(cmd, stdout=so, stderr=err, env=env, cwd=tmp, start_new_session=True)
        # A case that stops advancing is a hang; none takes more than a few seconds.
        rc, end = None, time.time() + timeout
        last, since = None, time.time()
        while time.time() < end:
            try:
                rc = p.wait(timeout=1.0)
                break
            except subprocess.TimeoutExpired:
                now = progress(out)[:2]
                if now != last:
                    last, since = now, time.time()
                elif time.time() - since > HANG_S:
                    rc = "hang"
                    break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    shutil.rmtree(tmp, ignore_errors=True)
    text = open(f"{out}/stderr", errors="replace").read()
    return rc, text


def collect(run, config, out, text):
    p = f"{out}/violations.jsonl"
    if os.path.exists(p):
        for line in open(p, errors="replace"):
            try:
                v = json.loads(line)
            except ValueError:
                continue
            run.add(v["key"], v["what"], part=v["part"], index=v["index"], detail=v["detail"], config=config)
    if config == "tsan":
        for b in san_blocks(text, "tsan"):
            if not re.search(r"/repo/|aslam|libKAZE|timing::|statistics::", b):
                continue
            part, idx, det = progress(out)
            run.add(san_key(b, "tsan"), b[:3000], part=part, index=-1, detail="", config=config)
    p = f"{out}/result.json"
    if os.path.exists(p):
        run.results.append((config, json.load(open(p))))


def run_config(run, exe, config, budget, base, extra=()):
    deadline = time.time() + budget
    crashes = 0
    ex = list(extra)
    n = 0
    hung = {}
    while True:
        out = f"{base}/{config}.{n}"
        n += 1
        rc, text = execute(run, exe, config, max(5, deadline - time.time()), out, ex)
        collect(run, config, out, text)
        part, idx, det = progress(out)
        if rc == 0 and os.path.exists(f"{out}/result.json"):
            return
        if rc == "hang":
            run.add(f"hang:{part}", f"no progress for {HANG_S} s in part {part}, case {idx}", part=part, index=idx,
                    detail=det, config=config)
            return
        if rc is None:
            run.incomplete.append(f"{config}: time budget of {budget:.0f} s used up in part {part} case {idx} {det[:200]}")
            return
        # The process died: a violation attributed to the case announced last.
        crashes += 1
        blocks = san_blocks(text, "asan")
        if blocks:
            key = san_key(blocks[0], "asan")
            what = blocks[0][:3000]
        else:
            m = re.search(r"^(F\d{4}.*|.*[Aa]ssertion.*|terminate called.*\n.*)$", text, re.M)
            loc = m.group(0) if m else ""
            loc_key = re.sub(r"^F\d{4} [\d:.]+\s+\d+ ", "", loc)
            loc_key = re.sub(r"0x[0-9a-f]+|\d+", "N", loc_key)[:120]
            sig = f"signal {-rc}" if rc < 0 else f"exit {rc}"
            key = f"crash:{part}:{sig}:{loc_key}"
            what = f"process ended with {sig}. {loc}\n" + text[-1500:]
        run.add(key, what, part=part, index=idx, detail=det, config=config)
        if extra or crashes >= 4 or time.time() > deadline - 5 or idx < 0:
            run.incomplete.append(f"{config}: stopped after {crashes} crashes")
            return
        ex = ["--resume-part", part, "--resume-index", str(idx + 1)]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--config")
    ap.add_argument("--part")
    a = ap.parse_args()
    t0 = time.time()
    c = CHECKS[a.property]
    extra = []
    configs = c["configs"]
    if a.replay:
        r = json.load(open(a.replay))
        a.seed, a.tier = r["seed"], r["tier"]
        configs = [r["config"]]
        if r.get("part"):
            extra = ["--only-part", r["part"]]
            if r.get("index", -1) >= 0:
                extra += ["--only-index", str(r["index"])]
    if a.config:
        configs = [a.config]
    if a.part:
        extra = ["--only-part", a.part]
    run = Run(a.property, a.tier, a.seed)
    harness = [f"{VERIF}/harness/{h}" for h in c["harness"]]
    try:
        exes = vbuild.build_many([(a.property, harness, c["sources"], k, c.get("flags", ())) for k in configs])
    except vbuild.BuildError as e:
        sys.stderr.write(f"BUILD FAILED for {a.property}\n{e}\n")
        return 3
    tb = time.time() - t0
    total = 780.0 if a.tier == "quick" else 7200.0
    base = f"{VERIF}/build/run/{a.property}.{os.getpid()}"
    # Configurations run one after another: concurrency stress wants the cores.
    per = c.get("parallel", True) and len(configs) > 1
    if per:
        import threading
        ts = []
        for k, e in zip(configs, exes):
            t = threading.Thread(target=run_config, args=(run, e, k, total - tb, base, extra))
            t.start()
            ts.append(t)
        for t in ts:
            t.join()
    else:
        for k, e in zip(configs, exes):
            run_config(run, e, k, total - (time.time() - t0), base, extra)

    # Merge.
    ev, dist, counters, maxima, samples = 0, 0, {}, {}, []
    for k, r in run.results:
        ev += r["evaluations"]
        dist += r["distinct"]
        for n, v in r["counters"].items():
            counters[f"{k}/{n}"] = counters.get(f"{k}/{n}", 0) + v
        for n, v in r["maxima"].items():
            maxima[n] = max(v, maxima.get(n, v))
        for s in r["samples"]:
            if len(samples) < 16:
                samples.append(s)
    keys = {}
    for v in run.vios:
        keys.setdefault(v["key"], []).append(v)
    kn = known().get(a.property, [])
    new = []
    matched = {}
    for key, vs in sorted(keys.items()):
        hit = None
        for f in kn:
            if re.fullmatch(f["match"], key):
                hit = f
        if hit:
            matched[hit["what"]] = matched.get(hit["what"], 0) + len(vs)
        else:
            new.append((key, vs))
    for f in kn:  # every listed finding is named on every run
        print(f"KNOWN-FINDING: property={a.property} {f['what']}"
              + ("" if f["what"] in matched else " (not provoked by this run)"))
    os.makedirs(f"{VERIF}/replay", exist_ok=True)
    for key, vs in new:
        v = vs[0]
        rid = f"{a.property}-{hashlib.sha256(key.encode()).hexdigest()[:10]}"
        path = f"{VERIF}/replay/{rid}.json"
        with open(path, "w") as f:
            json.dump(dict(property=a.property, key=key, seed=a.seed, tier=a.tier, config=v["config"],
                           part=v.get("part", ""), index=v.get("index", -1), what=v["what"],
                           detail=v.get("detail", ""),
                           replay=f"python3 tools/run_check.py {a.property} --replay {path}"), f, indent=1)
        print(f"VIOLATION property={a.property} replay={path}")
        print(f"  {key}: {v['what'][:600]}")
        if v.get("detail"):
            print(f"  case: {v.get('part')}#{v.get('index')} {v['detail'][:400]}")
    if not a.replay and not a.part and not a.config:
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        cov = dict(evaluations=ev, distinct_nontrivial=dist, rule=c["rule"], samples=samples or ["none"],
                   observed=counters, maxima=maxima, configurations=configs)
        if run.incomplete:
            cov["incomplete"] = run.incomplete
        with open(f"{VERIF}/evidence/{a.property}.json", "w") as f:
            json.dump(dict(property=a.property, tier=a.tier, seed=a.seed, level="exploration", coverage=cov,
                           assumptions=c.get("assumptions", []), wall_s=round(time.time() - t0, 2),
                           violations=len(new)), f, indent=1)
    for line in run.incomplete:
        print("INCOMPLETE: " + line)
    print(f"{a.property}: {ev} evaluations, {dist} distinct, {len(new)} violation keys, build {tb:.1f} s, "
          f"total {time.time() - t0:.1f} s")
    shutil.rmtree(base, ignore_errors=True) if not new else None
    if new:
        return 1
    if run.incomplete:
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
