"""Common machinery of the checks: violations, known findings, evidence."""
import json, os, sys, time, subprocess, hashlib, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
KNOWN = os.path.join(VERIF, "known-findings.txt")
NCPU = os.cpu_count() or 4

class Check:
    def __init__(self, pid, tier, level):
        self.pid, self.tier, self.level = pid, tier, level
        self.t0 = time.time(); self.nviol = 0; self.cov = {}; self.assume = []; self.samples = []
        self.seen_known = {}; self.viols = []
        self.known = []
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
                if m and m.group(1) == pid: self.known.append((m.group(2), m.group(3)))
    @property
    def thorough(self): return self.tier == "thorough"
    def elapsed(self): return time.time() - self.t0
    def violation(self, key, what, replay):
        """key identifies the specific failing input / call site / history"""
        for k, txt in self.known:
            if k == key:
                if k not in self.seen_known:
                    self.seen_known[k] = txt
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, txt)); sys.stdout.flush()
                return
        self.nviol += 1
        if self.nviol > 20: return
        d = os.path.join(VERIF, "evidence", "replay"); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.txt" % (self.pid, self.nviol))
        open(p, "w").write("property %s\nkey %s\n%s\n\nreplay:\n%s\n" % (self.pid, key, what, replay))
        self.viols.append(what)
        print("VIOLATION property=%s replay=%s" % (self.pid, os.path.relpath(p, VERIF)))
        print("  key %s: %s" % (key, what[:600])); sys.stdout.flush()
    def finish(self):
        e = dict(property=self.pid, tier=self.tier, seed=SEED, level=self.level, coverage=self.cov,
                 assumptions=self.assume, wall_s=round(self.elapsed(), 2), violations=self.nviol)
        if self.samples and "samples" not in self.cov: self.cov["samples"] = self.samples[:12]
        if self.seen_known: self.cov["known_findings_seen"] = sorted(self.seen_known)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f: json.dump(e, f, indent=1)
        print("%s %s: %s (%.1fs)" % (self.pid, self.tier, "VIOLATED" if self.nviol else "held on everything explored", self.elapsed()))
        return 1 if self.nviol else 0

def run(cmd, timeout=600, env=None, stdin=None, cwd=None):
    e = dict(os.environ)
    e.update({"ASAN_OPTIONS": "detect_leaks=1:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0",
              "UBSAN_OPTIONS": "print_stacktrace=1", "LC_ALL": "C"})
    if env: e.update(env)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, input=stdin, cwd=cwd)
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode(errors="replace"), (x.stderr or b"").decode(errors="replace")

MCKINDS = ["ok", "deadlock", "crash", "data race", "memory error", "leak", "wrong result", "no progress", "synchronisation misuse", "pruned"]

def mc_account(chk, harness, spec, r, rc, err, secs):
    """one exploration result -> coverage row (or violation)"""
    if r is None:
        cmd = " ".join(["MC_SEED=%d" % SEED, harness, "1", str(secs), "1", spec])
        if rc == 124: chk.violation("hang:" + spec, "exploration of %s never returned" % spec, cmd)
        elif rc < 0 or rc in (1, 99): chk.violation("crash:" + spec, "harness died with %d on %s: %s" % (rc, spec, err[-300:]), cmd)
        else:
            print("harness error on %s: rc=%d %s" % (spec, rc, err[-500:])); sys.exit(2)
        return
    if r["kind"]:
        chk.violation("%s:%s" % (MCKINDS[r["kind"]].replace(" ", "-"), spec),
                      "%s in %s: %s (schedule deviations %s)" % (MCKINDS[r["kind"]], spec, r["msg"], r["sched"] or "none"),
                      "MC_SEED=%d %s replay %s '%s'" % (SEED, harness, spec, r["sched"]))
    c = chk.cov
    for k, v in (("states", r["states"]), ("transitions", r["steps"]), ("traces_validated_against_impl", r["execs"]),
                 ("schedule_points", r["choice_points"]), ("pruned_as_already_covered", r["pruned"])):
        c[k] = c.get(k, 0) + v
    row = dict(config=spec, bound=r["bound"], completed_bound=r["completed_bound"], schedules=r["execs"], states=r["states"],
               transitions=r["steps"], longest_schedule_points=r["max_cp"], threads=r["threads"], seconds=r["wall"], results_checked=r["results"])
    c.setdefault("configurations", []).append(row)
    c["explorations"] = c.get("explorations", 0) + 1
    c["explorations_completed_to_bound"] = c.get("explorations_completed_to_bound", 0) + (1 if r["completed_bound"] >= r["bound"] else 0)
    if len(chk.samples) < 8: chk.samples.append(row)
    c["explanation"] = ("every counted trace is an execution of the real library under the controlled scheduler; states are distinct "
                        "happens-before histories; completed_bound is the number of deviations from the base schedule up to which every schedule was covered")

def mc_proc(harness, bound, secs, workers, specs, bits):
    env = {"MC_SEED": str(SEED), "MC_STATE_BITS": str(bits)}
    rc, out, err = run([harness, str(bound), str(secs), str(workers)] + list(specs), timeout=(secs + 5) * len(specs) + 90, env=env)
    rs = {}
    for l in out.splitlines():
        if l.startswith("{"):
            r = json.loads(l); rs[r["spec"]] = r
    return rc, err, rs

def mc_batch(chk, harness, specs, bound, secs, bits=21, chunk=6):
    """many small explorations, one worker process each, NCPU at a time"""
    from concurrent.futures import ThreadPoolExecutor
    specs = list(dict.fromkeys(specs))
    chunks = [specs[i:i + chunk] for i in range(0, len(specs), chunk)]
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(lambda ch: mc_proc(harness, bound, secs, 1, ch, bits), chunks))
    todo = []
    for ch, (rc, err, rs) in zip(chunks, res):
        failed = False
        for s in ch:
            if s in rs: mc_account(chk, harness, s, rs[s], rc, err, secs); failed |= bool(rs[s]["kind"])
            elif failed: todo.append(s)      # the harness stops a chunk at its first failure
            else: mc_account(chk, harness, s, None, rc, err, secs); failed = True
    return todo

def mc_run(chk, harness, plan, bits=25):
    """plan: list of (spec, bound, seconds): one exploration after the other, all cores on each"""
    for spec, bound, secs in plan:
        if chk.nviol >= 6: break
        rc, err, rs = mc_proc(harness, bound, secs, NCPU, [spec], bits)
        mc_account(chk, harness, spec, rs.get(spec), rc, err, secs)

def shard_run(chk, harness, rule, seconds=0, shards=NCPU, timeout=None, env=None, label=None):
    """run an enumeration harness in `shards` processes and collect its report lines"""
    from concurrent.futures import ThreadPoolExecutor
    timeout = timeout or (seconds + 120 if seconds else 800)
    def one(i): return run([harness, str(i), str(shards), chk.tier, str(seconds)], timeout=timeout, env=dict(env or {}, VERIF_SEED=str(SEED)))
    with ThreadPoolExecutor(shards) as ex: res = list(ex.map(one, range(shards)))
    c = chk.cov; tot = [0, 0, 0, 0]; cut = 0
    for i, (rc, out, err) in enumerate(res):
        ended = False
        for l in out.splitlines():
            if l.startswith("V "):
                key, _, what = l[2:].partition(" | ")
                san = [x for x in err.splitlines() if "ERROR: AddressSanitizer" in x or "runtime error" in x or "Assertion" in x or "#" in x[:8] and "/repo" in x][:4]
                chk.violation(key, what + ((" :: " + " / ".join(s.strip() for s in san)) if "sanitizer" in what or "abort" in what else ""),
                              "VERIF_SEED=%d %s 0 1 %s 0 '%s'" % (SEED, harness, chk.tier, key))
            elif l.startswith("E "):
                v = l.split(); ended = True
                for k in range(4): tot[k] += int(v[1 + k])
                cut |= int(v[5])
            elif l.startswith("S ") and len(chk.samples) < 12: chk.samples.append(l[2:])
        if not ended and not any(l.startswith("V ") for l in out.splitlines()):
            if rc == 124: chk.violation("hang:" + os.path.basename(harness), "shard %d of %s never returned" % (i, harness), "%s %d %d %s %s" % (harness, i, shards, chk.tier, seconds))
            elif "LeakSanitizer" in err: chk.violation("leak:" + os.path.basename(harness), "memory leak: " + err[-800:], "%s %d %d %s %s" % (harness, i, shards, chk.tier, seconds))
            else:
                print("harness error: %s shard %d rc=%d\n%s\n%s" % (harness, i, rc, out[-500:], err[-1500:])); sys.exit(2)
        elif "LeakSanitizer" in err:
            chk.violation("leak:" + os.path.basename(harness), "memory leak: " + err[-1200:], "%s %d %d %s %s" % (harness, i, shards, chk.tier, seconds))
    c["evaluations"] = c.get("evaluations", 0) + tot[1]
    c["cases"] = c.get("cases", 0) + tot[0]
    c["distinct_nontrivial"] = c.get("distinct_nontrivial", 0) + tot[2]
    c["distinct_outcomes_per_shard_sum"] = c.get("distinct_outcomes_per_shard_sum", 0) + tot[3]
    c["exhaustive"] = bool(c.get("exhaustive", True)) and not cut
    c["rule"] = (c.get("rule", "") + " " + rule).strip()
    if label: c.setdefault("parts", {})[label] = dict(cases=tot[0], evaluations=tot[1], nontrivial=tot[2], cut_by_time=bool(cut))
    return tot
