"""Parts of the checks that run under a sanitizer or in Miri."""
import concurrent.futures as cf
import json, os, re, subprocess, time

TRIPLE = "x86_64-unknown-linux-gnu"
SAN = {
    # kind: (rustc flag, build std too, environment)
    "asan": ("-Zsanitizer=address -Cdebuginfo=1", False, {"ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=0:detect_stack_use_after_return=1:log_path={log}"}),
    "msan": ("-Zsanitizer=memory -Cdebuginfo=1 --cfg husk_msan", True, {"MSAN_OPTIONS": "abort_on_error=1:log_path={log}"}),
    "tsan": ("-Zsanitizer=thread -Cdebuginfo=1", True, {"TSAN_OPTIONS": "abort_on_error=1:halt_on_error=1:exitcode=66:log_path={log}"}),
}


def tier(cm):
    return cm.env()["VERIF_TIER"]


def only(args):
    return args[args.index("--only") + 1] if "--only" in args else None


def san(which, prop, part, args, cm):
    o = only(args)
    if o and o.startswith("miri:"):
        return 0
    flag, std, opts = SAN[which]
    td = os.path.join(cm.TARGET, which)
    extra = ["--target", TRIPLE] + (["-Zbuild-std"] if std else [])
    d, hooked = cm.cargo_build(prop.lower(), "rel", flag, "nightly", extra, td)
    exe = os.path.join(td, TRIPLE, d, prop.lower())
    log = os.path.join(cm.HERE, "evidence", ".%s-%s" % (which, prop))

    def clean():
        for f in os.listdir(os.path.dirname(log)):
            if f.startswith(os.path.basename(log) + "."):
                os.unlink(os.path.join(os.path.dirname(log), f))

    clean()
    e = cm.env(HUSKMON_PART=part, HUSKMON_LEVEL="exploration", HUSKMON_HOOKED="1" if hooked else "0",
               **{k: v.format(log=log) for k, v in opts.items()})
    rc, out = cm.run([exe, *args], e, cwd=cm.HERE)
    text = ""
    for f in sorted(os.listdir(os.path.dirname(log))):
        if f.startswith(os.path.basename(log) + "."):
            text += open(os.path.join(os.path.dirname(log), f), errors="replace").read()[:8000]
    clean()
    print(out, end="")
    m = re.search(r"replay=(\S+)", out)
    if rc == 1 and m and text:
        with open(m.group(1), "a") as f:
            f.write("\nreport of the sanitizer:\n" + text)
        print("  " + next((l for l in text.splitlines() if "ERROR" in l or "WARNING" in l), text.splitlines()[0])[:300])
    elif rc == 2 and text:
        # it died of a report that no single case repeats (races, mostly): the report itself is the observation
        if "Sanitizer" in text and "/repo/" in text:
            return violation(cm, prop, which + "-report", "report of the sanitizer:\n" + text)
        print(text[:1500])
    return rc


def asan(prop, part, args, cm):
    return san("asan", prop, part, args, cm)


def msan(prop, part, args, cm):
    return san("msan", prop, part, args, cm)


def tsan(prop, part, args, cm):
    return san("tsan", prop, part, args, cm)


def violation(cm, prop, label, detail):
    d = os.path.join(cm.HERE, "replays")
    os.makedirs(d, exist_ok=True)
    safe = "".join(c if c.isalnum() or c == "-" else "_" for c in label)
    p = os.path.join(d, "%s-%s.txt" % (prop, safe))
    e = cm.env()
    with open(p, "w") as f:
        f.write("property: %s\ncase: %s\nseed: %s\ntier: %s\nreplay: cd /verif && VERIF_SEED=%s VERIF_TIER=%s ./check %s --only '%s'\n\n%s\n"
                % (prop, label, e["VERIF_SEED"], e["VERIF_TIER"], e["VERIF_SEED"], e["VERIF_TIER"], prop, label, detail))
    print("VIOLATION property=%s replay=%s" % (prop, p))
    print("  %s: %s" % (label, next((l for l in detail.splitlines() if "error" in l or "differ" in l), detail.splitlines()[0])[:300]))
    return 1


def miri_cmd(cm, binname, target=None, flags="", rustflags="", seed=0):
    e = cm.env(RUSTUP_TOOLCHAIN="nightly", CARGO_TARGET_DIR=os.path.join(cm.TARGET, "miri"),
               RUSTFLAGS=(cm.HOOK + " " + rustflags).strip(), MIRIFLAGS="-Zmiri-ignore-leaks -Zmiri-seed=%d %s" % (seed, flags))
    return ["cargo", "miri", "run", "--offline", "-q", "--bin", binname] + (["--target", target] if target else []) + ["--"], e


def classify(rc, err):
    """None: fine; else ("ub" | "other", text)"""
    m = re.search(r"^error: .*$", err, re.M)
    if rc == 0 and "HARNESS PANIC" not in err:
        return None
    text = err[m.start():] if m else err[-3000:]
    if m and ("Undefined Behavior" in m.group(0) or "abnormal termination" in m.group(0) or "deadlock" in m.group(0)):
        return ("ub", text[:6000])
    return ("other", text[:3000])


def last_case(err):
    c = re.findall(r"^CASE (.*)$", err, re.M)
    return c[-1] if c else "?"


def run_jobs(jobs, limit, workers=8):
    """jobs: (label, cmd, env, cwd) -> (label, rc, out, err), stopping at the first that is not fine"""
    res, bad = [], []

    def one(j):
        if bad:
            return None
        label, cmd, e, cwd, lim = j
        try:
            p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=min(lim, limit))
            r = (label, p.returncode, p.stdout, p.stderr)
        except subprocess.TimeoutExpired as x:
            dec = lambda b: (b or b"").decode(errors="replace") if isinstance(b, (bytes, type(None))) else b
            r = (label, "timeout", dec(x.stdout), dec(x.stderr))
        if r[1] != 0 and r[1] != "timeout":
            bad.append(r)
        return r

    with cf.ThreadPoolExecutor(workers) as ex:
        for r in ex.map(one, jobs):
            if r:
                res.append(r)
    return res


def miri(prop, part, args, cm):
    t0 = time.time()
    o = only(args)
    if o and not o.startswith("miri:"):
        return 0
    thorough = tier(cm) == "thorough"
    seed = int(cm.env()["VERIF_SEED"]) & 0xffffffff
    binname = prop.lower()
    # build once, so that the runs do not wait for each other
    cmd, e = miri_cmd(cm, binname)
    rc, out = cm.run(cmd + ["small", str(seed), "0", "0", "0"], e)
    if rc != 0:
        print("ERROR of the check: Miri does not build the monitor:")
        print(out[-3000:])
        return 2
    variants = [("", "", None)]
    if prop == "C18":
        kinds = 14
        # cases that take Miri about as long, for each kind
        per = [8, 24, 24, 12, 24, 20, 24, 12, 16, 24, 24, 14, 24, 24]
        scale = 8 if thorough else 1
        ranges = [(k, a * per[k], (a + 1) * per[k]) for k in range(kinds) for a in range(scale)]
        if thorough:
            variants += [("-Zmiri-tree-borrows", "", None), ("", "-Coverflow-checks=off -Cdebug-assertions=off", None),
                         ("", "", "i686-unknown-linux-gnu"), ("", "", "s390x-unknown-linux-gnu")]
    else:
        ranges = [(k, a, a + 1) for k in range(3) for a in range(16 if thorough else 4)]
        if thorough:
            variants += [("-Zmiri-preemption-rate=0.2", "", None), ("-Zmiri-tree-borrows", "", None)]
    if o:
        k, i = o[5:].split("/")
        ranges = [(int(k), int(i), int(i) + 1)]
        variants = [v for v in variants]
    if prop == "C21":
        native = None
    else:
        d, _ = cm.cargo_build(binname, "dev")
        native = os.path.join(cm.TARGET, d, binname)
    jobs = []
    notes = []
    for vi, (fl, rf, tgt) in enumerate(variants):
        if tgt:
            c, e = miri_cmd(cm, binname, tgt, fl, rf)
            rc, out = cm.run(c + ["small", str(seed), "0", "0", "0"], e)
            if rc != 0:
                notes.append("Miri could not be set up for %s" % tgt)
                continue
        rs = ranges if vi == 0 else ranges[::2]
        for (k, a, b) in rs:
            c, e = miri_cmd(cm, binname, tgt, fl, rf, seed * 1000 + a)
            jobs.append((((fl + " " + rf + " " + (tgt or "")).strip(), k, a, b), c + ["small", str(seed), str(k), str(a), str(b)], e, cm.HARNESS, 700 if not thorough else 3 * 3600))
    if thorough and prop == "C18" and not o:
        # one whole connection, refused handshakes and an honest one
        for k in (14, 15, 16):
            c, e = miri_cmd(cm, binname, None, "", "-Coverflow-checks=off -Cdebug-assertions=off", seed)
            jobs.insert(0, (("", k, 0, 1), c + ["small", str(seed), str(k), "0", "1"], e, cm.HARNESS, 3 * 3600))
    res = run_jobs(jobs, 5 * 3600)
    counts, distinct, samples, evals = {}, set(), [], 0
    rcode, want = 0, {}
    for (label, rc, out, err) in res:
        var, k, a, b = label
        if rc == "timeout":
            notes.append("stopped at its time limit: kind %d cases %d.. (%s)" % (k, a, last_case(err)))
            if not thorough:
                print("INCONCLUSIVE property=%s: Miri did not finish kind %d" % (prop, k))
                rcode = max(rcode, 2)
        else:
            bad = classify(rc, err)
            if bad and bad[0] == "ub":
                case = last_case(err)
                lab = "miri:" + "/".join(case.split()[:2])
                return violation(cm, prop, lab, "%s\n%s\nMiri (%s), case %s" % (bad[1].splitlines()[0], bad[1], var or "defaults", case))
            if bad:
                print("ERROR of the check: Miri: %s" % bad[1][:1500])
                rcode = 2
        lines = re.findall(r"^D (\d+) (\d+) (\S+)$", out, re.M)
        for (kk, i, dg) in lines:
            evals += 1
            distinct.add(dg)
            counts[kk] = counts.get(kk, 0) + 1
        dif = re.search(r"^DIFFERS (\d+) (\d+): (.*)$", out, re.M)
        if dif:
            return violation(cm, prop, "miri:%s/%s" % (dif.group(1), dif.group(2)), "results differ on several threads: " + dif.group(3))
        if native and lines:
            if (k, a, b) not in want:
                p = subprocess.run([native, "small", str(seed), str(k), str(a), str(b)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=600)
                want[(k, a, b)] = dict(((x, y), z) for x, y, z in re.findall(r"^D (\d+) (\d+) (\S+)$", p.stdout, re.M))
            for (kk, i, dg) in lines:
                w = want[(k, a, b)].get((kk, i))
                if w is not None and w != dg:
                    return violation(cm, prop, "miri:%s/%s" % (kk, i), "results differ: %s in Miri (%s), %s natively: the result depends on how the code is compiled" % (dg, var or "defaults", w))
            counts["compared with native"] = counts.get("compared with native", 0) + len(lines)
        if lines and len(samples) < 10:
            samples.append("%s: case %s -> %s" % (var or "Miri", last_case(err), lines[-1][2]))
    if evals == 0 and rcode == 0 and not o:
        print("INCONCLUSIVE property=%s: nothing was observed in Miri" % prop)
        rcode = 2
    ev = {"property": prop, "tier": tier(cm), "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(distinct),
                       "rule": "one case = one piece of work interpreted by Miri, which stops at the first undefined behaviour; its result is compared with the native one; distinct = different result",
                       "observed": {("cases of kind %s" % k if k.isdigit() else k): v for k, v in sorted(counts.items())},
                       "samples": samples, "notes": notes},
          "assumptions": ["Miri detects the undefined behaviour that happens in what it executes"],
          "wall_s": round(time.time() - t0, 3), "violations": 0}
    json.dump(ev, open(os.path.join(cm.HERE, "evidence", "%s.%s.json" % (prop, part)), "w"))
    if rcode == 0:
        print("%s: Miri: %d cases without undefined behaviour (%d distinct results), %.1f s" % (prop, evals, len(distinct), time.time() - t0))
    return rcode
