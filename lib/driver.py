"""Builds the harnesses of one property, runs them, judges the event logs they
leave, and writes the evidence. Verdicts: exit 0 held on everything observed,
exit 1 violation, exit 2 no verdict (build failure, harness failure, hang that
did not repeat, nothing observed)."""
import fnmatch, json, os, re, shutil, signal, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import props as P

VERIF = B.VERIF
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


def known_findings(prop):
    res = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


SKIPFN = re.compile(r"^(__interceptor|__asan|__ubsan|__sanitizer|operator new|operator delete|std::|__gnu_cxx|_start|__libc|main$|vf::|memcpy|memmove|memset|strlen)")


def frames(err):
    return re.findall(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+|\(\S+\))", err)


def top_repo_fn(err):
    for fn, loc in frames(err):
        if loc.startswith(B.REPO + "/"):
            fn = re.sub(r"\(.*", "", fn)
            return fn.strip()
    return "?"


def within(lib, err):
    """A read that went wrong inside a library without instrumentation, called from the repository."""
    if "caused by a READ memory access" not in err:
        return False
    f = frames(err[err.index("caused by a READ"):])
    return bool(f) and lib in f[0][1]


def crash_key(ev):
    err, sig = ev.get("err", ""), ev.get("sig", 0)
    group = ev["case"].rsplit(":", 1)[0]
    m = re.search(r"ERROR: (?:Address|Leak|Thread)Sanitizer: ([\w-]+)", err)
    fn = top_repo_fn(err)
    if "terminate called" in err:
        t = re.search(r"terminate called after throwing an instance of '([^']+)'", err)
        return "uncaught:%s:%s" % (t.group(1).replace(" ", "_") if t else "none", fn)
    if sig == signal.SIGALRM:
        return "hang:%s" % group
    if m:
        return "%s:%s" % (m.group(1), fn)
    m = re.search(r"runtime error: (.*)", err)
    if m:
        t = re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "N", m.group(1))
        return "ub:%s:%s" % (re.sub(r"[^A-Za-z]+", "-", t)[:60], fn)
    m = re.search(r"Assertion '([^']*)' failed", err)
    if m:
        return "assert:%s" % fn
    return "died:sig%d:code%d:%s" % (sig, ev.get("code", 0), group)


def base_env(run):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("ASAN_", "UBSAN_", "TSAN_", "LSAN_", "GDAL_", "VF_"))}
    env.update({
        "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:handle_abort=1:allocator_may_return_null=1:detect_stack_use_after_return=0:max_allocation_size_mb=4096:quarantine_size_mb=64:malloc_context_size=12",
        "UBSAN_OPTIONS": "print_stacktrace=1",
        "TSAN_OPTIONS": "halt_on_error=0:exitcode=0:report_signal_unsafe=0:history_size=4:suppressions=" + os.path.join(VERIF, "lib", "tsan.supp"),
        "LC_ALL": "C.UTF-8", "TZ": "UTC", "HOME": run["scratch"], "GDAL_DRIVER_PATH": "disable", "GDAL_PAM_ENABLED": "NO",
        "CPL_LOG": "/dev/null", "MAGICK_THREAD_LIMIT": "1", "OMP_NUM_THREADS": "1",
    })
    env.update(run.get("env", {}))
    return env


def races(err):
    """What ThreadSanitizer reported, as (key, text), without races inside
    libraries that are not instrumented."""
    res, skipped = [], 0
    for block in err.split("=================="):
        t = re.search(r"WARNING: ThreadSanitizer: ([^(\n]+)", block)
        if not t:
            continue
        owners = []
        for stack in re.split(r"\n  \S[^\n]*:\n", block.split("\n  Location is")[0].split("\n  Thread T")[0])[1:]:
            owner = "?"
            for fn, where, mod in re.findall(r"    #\d+ (.+?) (\S+) \(([^ )]+)\+0x[^\n]*", stack):
                if re.search(r"libtsan|libstdc\+\+|libc\.so|libm\.so", mod) or where.startswith("/usr/") or re.match(r"__wrap_|(rd|wr)\b", fn) or fn.startswith("std::"):
                    continue
                owner = re.sub(r"\(.*", "", fn).strip() if where.startswith(B.REPO + "/") else "harness" if where.startswith(VERIF + "/") else "library"
                break
            owners.append(owner)
        mine = [o for o in owners if o not in ("library", "?")]
        if not [o for o in mine if o != "harness"] and ("library" in owners or not mine):
            skipped += 1
            continue
        own = [o for o in mine if o != "harness"]
        res.append(("%s:%s" % (t.group(1).strip().replace(" ", "-"), own[0] if own else "harness"), block))
    return res, skipped


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    os.environ["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = P.PROPS[prop]
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    rdir = os.path.join(EVID, "replays")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(rdir, f))
    scratch = tempfile.mkdtemp(prefix="vf-%s-" % prop)
    os.chmod(scratch, 0o755)
    try:
        code = run_prop(prop, tier, seed, spec, scratch, rdir, t0)
    except B.BuildError as e:
        print("ERROR property=%s %s" % (prop, e))
        code = 2
    finally:
        subprocess.run(["chmod", "-R", "u+rwX", scratch], stderr=subprocess.DEVNULL)
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def run_prop(prop, tier, seed, spec, scratch, rdir, t0):
    only = os.environ.get("VF_ONLY")          # replay: run:group:idx
    viols, errors, samples, obs, groups = [], [], [], {}, {}
    evals = cases = unjudged = 0
    jobs = []
    tb = time.time()
    for r in spec["runs"]:
        if r.get("tier") and r["tier"] != tier:
            continue
        bins = {}
        for t in r.get("tools", []):
            bins[t["name"]] = B.build(t["name"], t.get("config", r["config"]), t.get("harness", []), t.get("groups", []), t.get("extra", []), t.get("defs", []), t.get("libs", []), t.get("magick", False))
        exe = B.build(prop.lower() + "_" + r["name"], r["config"], r["harness"], r.get("groups", []), r.get("extra", []), r.get("defs", []), r.get("libs", []), r.get("magick", False))
        if only and not only.startswith(r["name"] + ":"):
            continue
        n = 1 if only else r.get("shards", 8)
        for s in range(n):
            d = os.path.join(scratch, "%s.%d" % (r["name"], s))
            os.makedirs(d)
            run = dict(r, scratch=d)
            args = [exe, "--seed", str(seed), "--tier", tier, "--out", os.path.join(d, "events.jsonl"), "--scratch", d, "--repo", B.REPO, "--prop", prop, "--shard", "%d/%d" % (s, n)]
            if only:
                args += ["--only", only.split(":", 1)[1]]
            if r.get("wrapper"):
                args = r["wrapper"] + args
            env = base_env(run)
            for k, v in bins.items():
                env["VF_TOOL_" + k.upper()] = v
            jobs.append([run, args, env, d])
    tb = time.time() - tb
    pend, live = list(jobs), []
    limit = 8
    while pend or live:
        while pend and len(live) < limit:
            j = pend.pop(0)
            j.append(subprocess.Popen(j[1], cwd=j[3], env=j[2], stdin=subprocess.DEVNULL, stdout=open(os.path.join(j[3], "out.txt"), "w"), stderr=open(os.path.join(j[3], "err.txt"), "w"), start_new_session=True))
            live.append(j)
        for j in list(live):
            if j[4].poll() is not None:
                live.remove(j)
        time.sleep(0.02)
    slow = []
    for run, args, env, d, proc in jobs:
        ended = False
        evf = os.path.join(d, "events.jsonl")
        for line in open(evf) if os.path.exists(evf) else []:
            try:
                ev = json.loads(line)
            except ValueError:
                errors.append("unreadable event: " + line[:200])
                continue
            t = ev["t"]
            ev["run"] = run["name"]
            if t == "viol":
                viols.append((ev["key"], ev))
            elif t in ("crash", "report"):
                rs, sk = races(ev.get("err", ""))
                unjudged += sk
                viols += [(k, dict(ev, err=text)) for k, text in rs]
                if t == "report" and "WARNING: ThreadSanitizer" in ev.get("err", ""):
                    continue
                k = crash_key(ev)
                if k.startswith("SEGV:") and run.get("unjudged_reads_in") and within(run["unjudged_reads_in"], ev.get("err", "")):
                    unjudged += 1
                    continue
                if k.startswith("hang:"):
                    slow.append((k, ev, run, args, env, d))
                    continue
                if ev.get("code") in (95, 96, 97):
                    errors.append("harness failure in %s: %s" % (ev["case"], ev.get("err", "")[:300]))
                    continue
                viols.append((k, ev))
            elif t == "obs":
                obs.setdefault(ev["kind"], set()).update(ev["vals"])
            elif t == "sample":
                if len(samples) < 12:
                    samples.append(ev["case"] + ": " + ev["s"])
            elif t == "group":
                g = groups.setdefault(ev["name"], [0, 0])
                g[0] += ev["cases"]
                g[1] += ev["planned"]
            elif t == "end":
                ended = True
                evals += ev["evals"]
                cases += ev["cases"]
            elif t == "inconclusive":
                errors.append(ev["msg"])
        if not ended:
            tail = open(os.path.join(d, "err.txt"), errors="replace").read()[-1500:]
            errors.append("run %s did not finish (status %s): %s" % (run["name"], proc.returncode, tail))
    # Once one hang is confirmed the others are believed; where something else
    # is already known to be wrong, they need not be looked into.
    confirmed = False
    for i, (k, ev, run, args, env, d) in enumerate(slow):
        if not confirmed and (viols or i >= 3):
            break
        if not confirmed:
            k, ev = rerun(run, args, env, d, ev)
            if k is None:
                errors.append("case %s was slow once, and ended when run alone" % slow[i][1]["case"])
                continue
            confirmed = True
        viols.append((k, ev))
    known = known_findings(prop)
    hit, fresh = {}, {}
    for k, ev in viols:
        for pat, what in known:
            if k == pat:
                hit.setdefault((pat, what), []).append(ev)
                break
        else:
            fresh.setdefault(k, []).append(ev)
    for (pat, what), evs in sorted(hit.items()):
        print("KNOWN-FINDING: property=%s %s [%s, seen %d times]" % (prop, what, pat, len(evs)))
    n = 0
    for k, evs in sorted(fresh.items()):
        n += 1
        path = os.path.join(rdir, "%s-%d.txt" % (prop, n))
        ev = evs[0]
        with open(path, "w") as f:
            f.write("property: %s\nkey: %s\ncase: %s\nrun: %s\nseed: %d\ntier: %s\nseen: %d times\n" % (prop, k, ev["case"], ev["run"], seed, tier, len(evs)))
            f.write("replay: cd /verif && VERIF_SEED=%d VF_ONLY=%s:%s python3 check.py %s %s\n\n" % (seed, ev["run"], ev["case"], prop, tier))
            for e in evs[:5]:
                f.write((e.get("msg") or ("note: %s\nsub-step: %s\nsignal %s, code %s\n%s" % (e.get("note"), e.get("sub"), e.get("sig"), e.get("code"), e.get("err")))) + "\n\n")
        if n <= 40:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  %s (%d times), first in %s: %s" % (k, len(evs), ev["case"], (ev.get("msg") or ev.get("note") or "")[:300]))
    distinct = sum(len(v) for v in obs.values())
    if not only:
        if evals == 0 or distinct == 0:
            errors.append("nothing was observed")
        for g, (c, p) in groups.items():
            if p and not c and not viols:
                errors.append("group %s ran no case" % g)
    level = spec.get("level", "exploration")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level,
          "coverage": {"evaluations": evals, "distinct_nontrivial": distinct, "rule": spec["rule"], "samples": samples or ["none"],
                       "cases": cases, "cases_per_group": {g: c for g, (c, p) in sorted(groups.items())},
                       "situations_seen": {k: {"distinct": len(v), "examples": sorted(v)[:12]} for k, v in sorted(obs.items())},
                       "instrumentation": sorted({r["config"] for r in spec["runs"]}), "known_findings_seen": sorted(p for p, _ in hit)},
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d cases, %d comparisons, %d distinct situations, %d violations, %d known; build %.0f s, total %.0f s"
          % (prop, tier, cases, evals, distinct, len(fresh), len(hit), tb, time.time() - t0))
    if fresh:
        return 1
    if errors:
        for e in errors[:10]:
            print("ERROR property=%s %s" % (prop, e))
        return 2
    return 0


def rerun(run, args, env, d, ev):
    """A case that ran out of time counts as a hang only if it does so again alone, with more time."""
    d2 = d + ".re"
    os.makedirs(d2, exist_ok=True)
    evf = os.path.join(d2, "events.jsonl")
    if os.path.exists(evf):
        os.unlink(evf)
    a = list(args)
    a[a.index("--out") + 1] = evf
    a[a.index("--scratch") + 1] = d2
    a += ["--only", ev["case"]]
    e = dict(env, VF_ALARM_SCALE=str(max(2, min(6, 300 // max(1, ev.get("timeout", 60))))))
    subprocess.run(a, cwd=d2, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    for line in open(evf):
        x = json.loads(line)
        if x["t"] == "crash":
            x["run"] = run["name"]
            return crash_key(x), x
    return None, None


if __name__ == "__main__":
    main()
