"""What each check does."""
import copy, json, os, re, subprocess
import vf
from vf import Infra, abbreviate

PLANS = {}


def plan(*props):
    def deco(f):
        for p in props:
            PLANS[p] = f
        return f
    return deco


# --- calls: C11-C19, C22 ------------------------------------------------------

def _flip_last(b):
    b = list(b)
    if not b:
        return [1]
    b[-1] ^= 1
    return b


def mutate_call(s):
    """A corrupted copy of a recorded step that no correct library produces;
    None if this step offers no certain corruption."""
    m = copy.deepcopy(s)
    op = s["op"]
    if op == "codec":
        m["rver"] = 3 - s["rver"] if s["rver"] in (1, 2) else 1
    elif op == "decode":
        if len(s["payload"]) > 1:
            return None
        m["err"] = "zzz"
    elif op == "encode":
        m["payload"] = s["payload"] + [7]
    elif op == "meta":
        if s["err"] == "":
            m["crc"] = s["crc"] ^ 1
        else:
            m["err"] = ""
    elif op == "ident":
        m["name"] = s["name"] + "x"
    elif op == "known":
        m["ids"] = s["ids"] + [777777]
    elif op == "getframe":
        m["f"] = _flip_last(s["f"])
    elif op in ("encver", "read1"):
        m["err"] = "zzz"
    elif op == "framever":
        if s["err"] == "":
            m["f"] = s["f"][:-1]
        elif s["err"] in ("version", "enc2in1"):
            m["err"] = "zzz"
        else:
            return None
    elif op == "buildstub":
        m["f"] = _flip_last(s["f"])
    elif op == "stubframe":
        if s["err"] != "":
            return None
        m["f"] = s["f"][:-1]
    elif op in ("resolve", "validate"):
        m["verr" if op == "resolve" else "err"] = "zzz"
    elif op == "flips":
        if not s["flips"]:
            return None
        m["flips"][0][2] = ""
    elif op == "acc":
        if not s["made"] or "seq" not in s["acc"]:
            return None
        m["acc"]["seq"] = s["acc"]["seq"] ^ 1
    elif op == "hostile":
        m["panic"] = "x"
    elif op in ("text.get", "text.set", "ext.set"):
        m["got"] = s["got"] + [65]
    elif op == "frombytes":
        m["err"] = "zzz"
    elif op in ("show", "showframe", "showunknown"):
        if not m["lines"]:
            return None
        x = m["lines"][-1]
        if len(s["f"] if "f" in s else s["lines"]) % 2:
            m["lines"].append(x)
        elif len(x["v"]) in (1, 2):
            x["v"] = _flip_last(x["v"])
        else:
            del m["lines"][-1]
    elif op == "stable":
        if not s["is"]:
            return None
        m["is"][-1] = _flip_last(s["is"][-1])
    elif op[:2] == "o.":
        if op != "o.wrap" and s["made"] and "b" in s["made"][0] and s["made"][0]["b"]:
            m["made"][0]["b"] = _flip_last(s["made"][0]["b"])
        elif s["diff"] and "b" in s["diff"][0]["v"]:
            m["diff"] = m["diff"] * 2
            m["diff"][0] = dict(m["diff"][0], o=s["diff"][0]["o"] + 1)
        elif s["made"] or s["diff"]:
            m["err"] = "zzz"
        else:
            return None
    elif op == "crc.sum":
        m["out"] = _flip_last(s["out"])
    else:
        return None
    return m


def call_selftest(ck, tables, runs, want=24):
    """Corrupted traces must be rejected: shows that the specification binds."""
    muts, seen = [], {}
    order = list(range(len(runs)))
    ck.rng.shuffle(order)
    for ri in order:
        steps = runs[ri]["steps"]
        idx = list(range(len(steps)))
        ck.rng.shuffle(idx)
        for si in idx[:8]:
            op = steps[si]["op"]
            if seen.get(op, 0) >= want // 3:
                continue
            m = mutate_call(steps[si])
            if m is None:
                continue
            seen[op] = seen.get(op, 0) + 1
            muts.append(dict(runs[ri], steps=steps[:si] + [m]))
            break
        if len(muts) >= want:
            break
    if not muts:
        raise Infra("self-test: no step to corrupt")
    p = ck.path("mutants.json")
    vf.write_ndjson(p, muts)
    r = ck.tlc("TraceCalls", env=dict(TABLES=tables, TRACE=p, PROP=ck.prop), extra=["-continue"], count=False)
    n = len(re.findall(r"Error: Invariant StepsConform is violated|Error: Evaluating invariant", r.out))
    if n != len(muts):
        raise Infra("self-test: %d of %d corrupted traces rejected\n%s" % (n, len(muts), r.error))
    ck.cov["corrupted_traces_rejected"] = n


def run_calls(ck, exe, tables, seed, n):
    tr = ck.path("trace-%d.json" % seed)
    p = subprocess.run([exe, "-prop", ck.prop, "-seed", str(seed), "-n", str(n), "-out", tr, "-defs",
                        os.path.join(vf.SPEC, "mavlink_defs.json")], capture_output=True, text=True, timeout=600)
    if p.returncode != 0:
        if "fatal error:" in p.stderr or "panic:" in p.stderr and "github.com/botlink" in p.stderr:
            ck.violation("the library crashed the process", dict(stderr=p.stderr[-4000:], driver_seed=seed, n=n))
            return None
        raise Infra("driver failed: %s" % (p.stdout + p.stderr)[-3000:])
    return tr


def op_counts(runs):
    c = {}
    for x in runs:
        for s in x["steps"]:
            c[s["op"]] = c.get(s["op"], 0) + 1
    return c


CALLS_N = dict(C11=10, C12=24, C13=20, C14=40, C15=40, C16=20, C17=10, C18=60, C19=20, C22=20, C25=20, C26=40, C29=10)
HEAP_BUGS = ["reuse", "memo", "empty", "alias", "keep", "into", "slab"]


@plan("C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C22", "C25", "C26", "C29")
def calls(ck):
    tables = ck.tables()
    exe = ck.go_build("./calls", "calls")
    rounds = 1
    budget = 20
    if ck.prop == "C29":
        ck.par(*[lambda b=b: ck.design_bug("Heap", "HeapBug_" + b, workers=1) for b in HEAP_BUGS] +
               [lambda: ck.design("Heap", "HeapDeep" if ck.thorough else "Heap", workers=2,
                                  what="histories of messages, frames and payloads in memory, against what each is to hold")])
    if ck.thorough:
        rounds, budget = 1000, 600
    ops, total = {}, 0
    for k in range(rounds):
        if k and ck.elapsed() > budget:
            break
        seed = ck.seed * 1000 + k
        tr = run_calls(ck, exe, tables, seed, CALLS_N[ck.prop])
        if tr is None:
            return
        runs = vf.read_ndjson(tr)
        r = ck.tlc("TraceCalls", env=dict(TABLES=tables, TRACE=tr, PROP=ck.prop), heap="12g")
        if not r.ok:
            if not r.rejected:
                raise Infra("TLC: " + r.error)
            st = r.last_state()
            run, step = int(st["r"]), int(st["i"])
            if step < 1:
                raise Infra("TLC: " + r.error)
            bad = runs[run - 1]["steps"][step - 1]
            key = "%s/%s/%s" % (bad["op"], bad.get("d", ""), bad.get("id", ""))
            ck.violation("step %d of run %d (%s) is not allowed by TraceCalls" % (step, run, key),
                         dict(step=bad, before=runs[run - 1]["steps"][:step - 1][-5:], driver_seed=seed,
                              spec="spec/TraceCalls.tla", tlc=r.error, state=st), key)
            return
        ck.traces += len(runs)
        total += sum(len(x["steps"]) for x in runs)
        for o, c in op_counts(runs).items():
            ops[o] = ops.get(o, 0) + c
        if k == 0:
            call_selftest(ck, tables, runs)
            pick = ck.rng.sample(range(len(runs)), min(3, len(runs)))
            ck.samples = [abbreviate(dict(run=i, step=runs[i]["steps"][-1])) for i in pick]
        os.unlink(tr)
    ck.cov.update(calls_judged=total, calls_by_kind=ops, rounds=k + 1)
    ck.assumptions = ["the driver reports arguments and results of the calls faithfully (corrupted traces are rejected)",
                      "spec/mavlink_defs.json states the MAVLink definitions the dialects are generated from"]


def judge_calls(ck, tables, tr, seed, heap="12g"):
    """TLC's verdict on recorded calls: (runs, ok)."""
    runs = vf.read_ndjson(tr)
    r = ck.tlc("TraceCalls", env=dict(TABLES=tables, TRACE=tr, PROP=ck.prop), heap=heap)
    if r.ok:
        return runs, True
    if not r.rejected:
        raise Infra("TLC: " + r.error)
    st = r.last_state()
    run, step = int(st["r"]), int(st["i"])
    if step < 1:
        raise Infra("TLC: " + r.error)
    bad = runs[run - 1]["steps"][step - 1]
    key = "%s/%s/%s" % (bad["op"], bad.get("d", ""), bad.get("id", ""))
    ck.violation("step %d of run %d (%s) is not allowed by TraceCalls" % (step, run, key),
                 dict(step=bad, before=runs[run - 1]["steps"][:step - 1][-5:], driver_seed=seed,
                      spec="spec/TraceCalls.tla", tlc=r.error, state=st), key)
    return runs, False


@plan("C24")
def concurrent(ck):
    """Independent calls from several goroutines: every one is judged as if it were alone."""
    tables = ck.tables()
    plain = ck.go_build("./calls", "calls")
    race = ck.go_build("./calls", "calls.race", race=True)
    defs = os.path.join(vf.SPEC, "mavlink_defs.json")
    ops, total, k, first = {}, 0, 0, None
    while k == 0 or (ck.thorough and ck.elapsed() < 600):
        seed = ck.seed * 1000 + k
        for exe, rounds, n in ((race, 1, 1), (plain, 2, 1)):
            tr = ck.path("trace-%s-%d.json" % (os.path.basename(exe), seed))
            p = subprocess.run([exe, "-prop", "C24", "-seed", str(seed), "-n", str(n), "-rounds", str(rounds), "-out", tr,
                                "-defs", defs, "-repeat", "1" if exe is race else "2"],
                               capture_output=True, text=True, timeout=600, errors="replace",
                               env=dict(vf.go_env(), GORACE="halt_on_error=1 exitcode=66"))
            ck.log("driver %s done" % os.path.basename(exe))
            if p.returncode != 0:
                if "DATA RACE" in p.stderr and "/mavlink2" in p.stderr.replace("go-mavlink2", "/mavlink2"):
                    ck.violation("data race between independent calls", dict(stderr=p.stderr[:6000], driver_seed=seed), "race")
                    return
                if "fatal error:" in p.stderr or "panic:" in p.stderr and "github.com/botlink" in p.stderr:
                    ck.violation("concurrent calls crashed the process", dict(stderr=p.stderr[-4000:], driver_seed=seed), "crash")
                    return
                raise Infra("driver failed: %s" % (p.stdout + p.stderr)[-3000:])
            runs, ok = judge_calls(ck, tables, tr, seed)
            if not ok:
                return
            ck.traces += len(runs)
            total += sum(len(x["steps"]) for x in runs)
            for o, c in op_counts(runs).items():
                ops[o] = ops.get(o, 0) + c
            if first is None:
                first = runs
                call_selftest(ck, tables, runs)
                pick = ck.rng.sample(range(len(runs)), min(3, len(runs)))
                ck.samples = [abbreviate(dict(run=i, step=runs[i]["steps"][-1])) for i in pick]
            os.unlink(tr)
        k += 1
    ck.cov.update(calls_judged=total, calls_by_kind=ops, rounds=k, goroutines=8)
    ck.assumptions = ["the driver reports arguments and results of the calls faithfully (corrupted traces are rejected)",
                      "two goroutines share dialects, but no message, frame or checksum object",
                      "copies of a recorded run are judged once"]


# --- framing: C01-C05 ---------------------------------------------------------

FRAMING_N = dict(C01=1500, C02=1200, C03=250, C04=700, C05=400)


def mutate_framing(prop, rec, rng):
    m = copy.deepcopy(rec)
    x = m["rec"]
    if prop == "C01":
        st = [s for s in x["steps"] if s["o"]]
        if not st:
            return None
        s = rng.choice(st)
        k = rng.randrange(len(s["o"]))
        if rng.random() < 0.5:
            s["o"][k][rng.randrange(len(s["o"][k]))] ^= 1 + rng.randrange(255)
        else:
            s["o"].insert(k, s["o"][k])
            # the same bytes may occur again later
            f = s["o"][k]
            inp = x["input"]
            if sum(inp[i:i + len(f)] == f for i in range(len(inp))) != 1:
                return None
    elif prop == "C02":
        st = [s for s in x["steps"] if s["o"]]
        if not st:
            return None
        s = rng.choice(st)
        k = rng.randrange(len(s["o"]))
        how = rng.randrange(3)
        if how == 0:
            del s["o"][k]
        elif how == 1:
            s["o"].insert(k, s["o"][k])
        else:
            i = x["steps"].index(s)
            if i + 1 >= len(x["steps"]) or x["steps"][i + 1]["a"] == s["a"]:
                return None
            x["steps"][i + 1]["o"].insert(0, s["o"].pop())
    elif prop in ("C03", "C04"):
        rs = [q for q in x["runs"] if q["o"]]
        if not rs:
            return None
        q = rng.choice(rs)
        del q["o"][rng.randrange(len(q["o"]))]
    elif prop == "C05":
        ch = [o for o in x["mem"] if o["op"] == "check"]
        if not ch:
            return None
        o = rng.choice(ch)
        f = rng.choice(o["all"])
        f[rng.randrange(len(f))] ^= 1
    return m


def framing_tlc(ck, tables, trace, count=True, extra=()):
    mod = "TraceMemory" if ck.prop == "C05" else "TraceFraming"
    return ck.tlc(mod, env=dict(TABLES=tables, TRACE=trace, PROP=ck.prop), heap="12g", count=count, extra=extra)


@plan("C01", "C02", "C03", "C04", "C05")
def framing(ck):
    tables = ck.tables()
    if ck.prop != "C05":
        ck.design("Framing", "Framing7" if ck.thorough else "Framing", heap="12g",
                  what="buffered scanner against the declarative reference: all inputs, cuts, buffer sizes, strict and lenient")
    exe = ck.go_build("./framing", "framing.test", test=True)
    scn = ck.path("scn.json")
    r = ck.tlc("FramingGen", env=dict(SCN=scn, GENLEN="4" if ck.thorough and ck.prop not in ("C03", "C05") else "3"), workers=1)
    if not r.ok or not os.path.exists(scn):
        raise Infra("FramingGen: " + r.error)
    nscn = len(json.load(open(scn)))
    k, steps, frames = 0, 0, 0
    hist = {}
    while k == 0 or (ck.thorough and ck.elapsed() < 600):
        seed = ck.seed * 1000 + k
        tr = ck.path("trace-%d.json" % seed)
        args = ["-seed", str(seed), "-n", str(FRAMING_N[ck.prop])] + (["-scn", scn] if k == 0 or not ck.thorough else [])
        fails = ck.drive(exe, tr, args)
        for f in fails:
            hist[f[0]] = hist.get(f[0], 0) + 1
        recs = vf.read_ndjson(tr) if os.path.exists(tr) else []
        if not recs:
            raise Infra("nothing recorded: %s" % fails)
        r = framing_tlc(ck, tables, tr)
        if not r.ok:
            if not r.rejected:
                raise Infra("TLC: " + r.error)
            st = r.last_state()
            bad = recs[int(st["r"]) - 1]
            if bad["rec"].get("how"):   # it hung: only believe it if it does so again
                again = ck.path("again.json")
                ck.drive(exe, again, args, wall=40, only=bad["i"])
                r2 = framing_tlc(ck, tables, again, count=False)
                if r2.ok:
                    raise Infra("scenario %d hung once and not again" % bad["i"])
            ck.violation("scenario %d (%s): what the stream delivered is not allowed by the specification" % (bad["i"], bad["rec"].get("note")),
                         dict(scenario=bad, driver_args=args, driver_seed=seed, state=st, tlc=r.error,
                              fails=fails[:2]), key="scenario")
            return
        ck.traces += len(recs)
        for x in recs:
            steps += len(x["rec"].get("steps", x["rec"].get("mem", x["rec"].get("runs", []))))
            for s in x["rec"].get("steps", []) or x["rec"].get("runs", []):
                frames += len(s["o"])
            frames += sum(1 for o in x["rec"].get("mem", []) if o["op"] == "deliver")
        if k == 0:
            muts = []
            order = list(range(len(recs)))
            ck.rng.shuffle(order)
            for i in order:
                m = mutate_framing(ck.prop, recs[i], ck.rng)
                if m:
                    muts.append(m)
                if len(muts) == 20:
                    break
            mp = ck.path("mutants.json")
            vf.write_ndjson(mp, muts)
            r = framing_tlc(ck, tables, mp, count=False, extra=["-continue"])
            n = len(set(re.findall(r"(?m)^/\\ r = (\d+)$", r.out)))
            if n != len(muts) or not muts:
                raise Infra("self-test: %d of %d corrupted traces rejected" % (n, len(muts)))
            ck.cov["corrupted_traces_rejected"] = n
            ck.samples = [abbreviate(recs[i], 40) for i in order[:2]]
        os.unlink(tr)
        k += 1
    ck.cov.update(rounds=k, segment_sequences_from_specification=nscn, observations=steps, frames_delivered=frames,
                  driver_failures=hist)
    ck.assumptions = ["the driver's transport and consumer are scheduled fairly (fake time, testing/synctest)",
                      "frame validity is judged by the specification's own tables (MavDerive), not by the library"]


# --- life cycle of the stream: C06-C10 ------------------------------------------

LIFE_BUGS = dict(C06=["noOnce", "noLock", "deaf"], C07=["wDeaf", "readFirst"], C08=["errLate"], C09=["retry", "keepOn", "forget", "newest"],
                 C10=["logSkip"])


def scenarios(ck, cfg, workers, extra=()):
    r = ck.tlc("StreamGen", cfg, workers=workers, extra=extra, heap="10g")
    if not r.ok:
        raise Infra("StreamGen/%s: %s" % (cfg, r.error))
    seen = sorted({json.loads(l)[4:] for l in r.out.splitlines() if l.startswith('"SCN ')})
    if not seen:
        raise Infra("StreamGen/%s: no scenario" % cfg)
    return [json.loads(x) for x in seen]


def life_tlc(ck, recs, count=True, extra=()):
    p = ck.path("hist.json")
    vf.write_ndjson(p, [dict(cfg=x["cfg"], ev=x["ev"]) for x in recs])
    return ck.tlc("TraceStream", env=dict(TRACE=p, PROP=ck.prop), heap="12g", count=count, extra=extra)


def mutate_life(prop, rec, rng):
    """A corrupted copy of a history that no correct stream produces, or None."""
    m = copy.deepcopy(rec)
    ev = m["ev"]

    def where(*names):
        return [i for i, e in enumerate(ev) if e["e"] in names]
    rests = [i for i in where("rest") if ev[i]["sig"]]
    if not rests:
        return None
    if prop == "C06":
        i = where("rwcClose")
        if not i:
            return None
        if rng.random() < 0.5:
            ev.insert(i[0], ev[i[0]])
        else:
            ev[rests[0]]["out"] = False
    elif prop == "C07":
        i = where("retR", "retW")
        if not i or m["cfg"]["logger"] != "none":
            return None
        del ev[rng.choice(i)]
    elif prop == "C08":
        i = rng.choice(rests)
        ev[i]["err"] = rng.choice(["", "other:x"])
    elif prop == "C09":
        i = where("wrCall")
        if not i:
            return None
        i = rng.choice(i)
        if rng.random() < 0.5:
            ev[i]["id"] = 0
        else:
            ev[i + 1:i + 1] = [dict(e="wrRet", err=""), ev[i]]
    elif prop == "C10":
        i = where("recv", "logR", "logW")
        if not i:
            return None
        i = rng.choice(i)
        if rng.random() < 0.5:
            ev[i]["id"] += 1
        else:
            ev.insert(i + 1, ev[i])
    return m


# per ten scenarios: plain, gated loggers, walks, buffered write channel, two consumers
LIFE_MIX = dict(C06="ppppggwwbc", C07="ppppggwwbc", C08="pppppgwwbc", C09="ppgwwwbbbb", C10="ppggggwwwc",
                C28="pgwpgbpgwcb")


def life_variants(ck, pools, n, sched):
    """n scenarios with variations, drawn with ck.rng."""
    out = []
    for k in range(n):
        src = LIFE_MIX[ck.prop][k % len(LIFE_MIX[ck.prop])]
        sc = dict(pools[src][ck.rng.randrange(len(pools[src]))])
        if src in "pc":
            sc["logger"] = ck.rng.choice(["none", "none", "ok", "err"] if ck.prop != "C10" else ["ok", "err"])
        elif sc["logger"] == "ok" and ck.rng.random() < 0.3:
            sc["logger"] = "err"
        sc["seed"] = ck.rng.randrange(1 << 30)
        sc["sched"] = sched
        if src in "pg" and ck.rng.random() < 0.15:
            sc["cap"] = ck.rng.choice([1, 2, 3])
        sc["long"] = ck.rng.random() < 0.2
        sc["slow"] = sched and ck.rng.random() < 0.25
        def some(p):
            return ck.rng.random() < p
        sc["feat"] = dict(lenient=some(0.5), damaged=some(0.5), tails=some(0.4), errs=some(0.6), burst=some(0.5), auto=some(0.15),
                          reenter=some(0.07), dup=some(0.3), ctx=some(0.5), late=some(0.3))
        out.append(sc)
    return out


@plan("C06", "C07", "C08", "C09", "C10")
def life(ck):
    exes = {}

    def build():
        exes["raw"] = ck.go_build("./life", "life.test", test=True)
        ov = ck.instrument()
        if ov:
            try:
                exes["sched"] = ck.go_build("./life", "lifes.test", test=True, overlay=ov)
            except Infra as e:
                ck.log("no instrumented build: %s" % str(e)[-800:])

    def design():
        if ck.thorough:
            for c, what in (("StreamDeep", "4 operations of the environment, loops not yet started"),
                            ("Stream", "3 operations, loops running"),
                            ("StreamBufDeep", "6 operations on the write side, buffered write channel"),
                            ("StreamConsDeep", "6 operations on the read side, two consumers"), ("StreamLive", "3 operations, liveness: it winds down")):
                ck.design("Stream", c, what="as built, in all interleavings: " + what, heap="12g", workers=6)
        else:
            ck.design("Stream", "StreamQ", what="as built, in all interleavings with 3 operations of the environment", workers=4)
            if ck.prop == "C09":
                ck.design("Stream", "StreamBuf", what="as built, 5 operations on the write side, buffered write channel", workers=4)
            if ck.prop in ("C07", "C10"):
                ck.design("Stream", "StreamCons", what="as built, 4 operations on the read side, two consumers", workers=4)
        for b in LIFE_BUGS[ck.prop]:
            ck.design_bug("Stream", "StreamBug_" + b, workers=2)
    T = ck.thorough
    walkargs = ["-simulate", "num=%d" % (3000 if T else 60), "-depth", "900", "-seed", str(ck.seed)]
    _, _, pool, gated, walks, buffered, cons = ck.par(
        build, design,
        lambda: scenarios(ck, "StreamGen" if T else "StreamGenQ", 8 if T else 3),
        lambda: scenarios(ck, "StreamGenLog" if T else "StreamGenLogQ", 8 if T else 4),
        lambda: scenarios(ck, "StreamWalk", 4, walkargs),
        lambda: scenarios(ck, "StreamGenBuf", 4),
        lambda: scenarios(ck, "StreamGenCons", 4))
    pools = dict(p=pool, g=gated, w=walks, b=buffered, c=cons)
    ck.log("scenarios: %d + %d gated + %d walks + %d with buffers + %d with two consumers" % tuple(len(pools[x]) for x in "pgwbc"))
    if ck.prop == "C06":
        races(ck)
        if ck.violations:
            return
    k, hist, nev = 0, {}, 0
    seen = set()
    modes = {}
    while k == 0 or (T and ck.elapsed() < 640):
        recs = []
        for mode, exe in sorted(exes.items()):
            sf, tr = ck.path("scn-%s.json" % mode), ck.path("trace-%s.json" % mode)
            if os.path.exists(tr):
                os.unlink(tr)
            scs = life_variants(ck, pools, (12000 if T else 6000) * (2 if mode == "sched" else 1), mode == "sched")
            json.dump(scs, open(sf, "w"))
            args = ["-scn", sf, "-seed", str(ck.seed)]
            for kind, at, err in ck.drive(exe, tr, args):
                hist[kind] = hist.get(kind, 0) + 1
                if kind == "crash":
                    if "github.com/botlink/go-mavlink2" in err and ("panic:" in err or "fatal error:" in err):
                        if ck.prop == "C06":
                            ck.violation("the library crashed the process in scenario %s" % scs[at],
                                         dict(scenario=scs[at], driver_args=args, stderr=err), "crash")
                            return
                    else:
                        raise Infra("driver crashed: " + err)
            rs = vf.read_ndjson(tr) if os.path.exists(tr) else []
            for y in rs:
                x = y["rec"]
                modes[mode] = modes.get(mode, 0) + 1
                if x["how"] == "hang" and not hangs_again(ck, exe, y["i"], args):
                    x["ev"] = [e for e in x["ev"] if e["e"] != "stuck"]
                    hist["not again"] = hist.get("not again", 0) + 1
                key = hash(json.dumps([x["cfg"], x["ev"]]))
                if key not in seen:
                    seen.add(key)
                    recs.append(x)
        if not recs and not seen:
            raise Infra("nothing recorded")
        r = life_tlc(ck, recs)
        if not r.ok:
            if not r.rejected:
                raise Infra("TLC: " + r.error)
            st = r.last_state()
            bad = recs[int(st["r"]) - 1]
            at = int(st["i"])
            ck.violation("event %d of the history, %s, is not allowed (scenario %s)" %
                         (at + 1, json.dumps(bad["ev"][at]), json.dumps(bad["sc"])),
                         dict(scenario=bad["sc"], history=bad["ev"][:at + 1], cfg=bad["cfg"], observer=st, how=bad["how"],
                              spec="spec/StreamAbs.tla"), key="history")
            return
        ck.traces += len(recs)
        nev += sum(len(x["ev"]) for x in recs)
        if k == 0:
            muts = []
            for x in ck.rng.sample(recs, len(recs)):
                m = mutate_life(ck.prop, x, ck.rng)
                if m:
                    muts.append(m)
                if len(muts) == 30:
                    break
            r = life_tlc(ck, muts, count=False, extra=["-continue"])
            n = len(set(re.findall(r"(?m)^/\\ r = (\d+)$", r.out)))
            if n != len(muts) or not muts:
                raise Infra("self-test: %d of %d corrupted histories rejected" % (n, len(muts)))
            ck.cov["corrupted_traces_rejected"] = n
            ck.samples = [dict(scenario=x["sc"], history=abbreviate(x["ev"], 60)) for x in ck.rng.sample(recs, min(3, len(recs)))]
        k += 1
    ck.cov.update(rounds=k, scenarios_from_specification=sum(len(x) for x in pools.values()), executions=modes,
                  distinct_histories=len(seen), events_judged=nev, driver_failures=hist)
    ck.assumptions = ["the environment (transport, contexts, consumer, producer, logger) of the driver records what happens to it faithfully",
                      "in the instrumented build, locks that block on channels stand for those of package sync",
                      "interleavings of the real code are sampled (parallel execution, and random schedules in fake time); those of the design are exhaustive within the bounds"]


def hangs_again(ck, exe, i, args):
    if getattr(ck, "hung", False):
        return True    # it is known to hang
    out = ck.path("again.json")
    for _ in range(6):
        if os.path.exists(out):
            os.unlink(out)
        if ck.drive(exe, out, args, wall=20, only=i):
            ck.hung = True
            return True
    return False


def races(ck, test="TestDrive", n=None):
    """The race detector's reports, as histories."""
    exe = ck.go_build("./race", "race.test", test=True, race=True)
    n = n or (24000 if ck.thorough else 1200)
    env = vf.go_env()
    env["GORACE"] = "halt_on_error=0 history_size=3"
    p = subprocess.run([exe, "-test.run", "^" + test + "$", "-test.timeout", "0", "-seed", str(ck.seed), "-n", str(n), "-defs",
                        os.path.join(vf.SPEC, "mavlink_defs.json")], capture_output=True, text=True, errors="replace",
                       timeout=700, env=env)
    reports = [b for b in re.findall(r"(?s)WARNING: DATA RACE.*?==================", p.stderr) if "botlink/go-mavlink2" in b]
    ev = [dict(e="race", report=b[:3000]) for b in reports[:3]]
    if "COMPLETE" not in p.stderr:
        if "HANG" in p.stderr:
            ck.cov["race_runs_hung"] = True    # C07 looks at that
        elif "github.com/botlink/go-mavlink2" in p.stderr and ("panic:" in p.stderr or "fatal error:" in p.stderr):
            ev.append(dict(e="panic", who="U", report=p.stderr[-4000:]))
        else:
            raise Infra("race driver: " + p.stderr[-3000:])
    r = life_tlc(ck, [dict(cfg=dict(logger="none", buffered=False), ev=ev or [dict(e="rest", sig=False, out=False, err="")])])
    ck.cov["runs_under_race_detector"] = n
    if not r.ok:
        if not r.rejected:
            raise Infra("TLC: " + r.error)
        ck.violation("data race or crash in the library", dict(history=ev, driver_seed=ck.seed, n=n), key="race")


# --- several streams in one process: C28 -----------------------------------------

MANY_BUGS = ["buffer", "once", "lock", "err", "logger", "turn"]


@plan("C28")
def many(ck):
    T = ck.thorough
    exes = {}

    def build():
        exes["raw"] = ck.go_build("./life", "life.test", test=True)
        ov = ck.instrument()
        if ov:
            try:
                exes["sched"] = ck.go_build("./life", "lifes.test", test=True, overlay=ov)
            except Infra as e:
                ck.log("no instrumented build: %s" % str(e)[-800:])

    def design():
        if T:
            ck.par(lambda: ck.design("Many", "Many", what="two streams' read sides, 5 operations of the environment, two frames each, in all interleavings", heap="8g", workers=4),
                   lambda: ck.design("Many", "ManyW", what="two streams' write sides, 5 operations, two frames each, in all interleavings", heap="6g", workers=2),
                   lambda: ck.design("Many", "ManyRW", what="two streams, both sides, 3 operations, in all interleavings", heap="6g", workers=3))
        else:
            ck.design("Many", "ManyQ", what="two streams' read sides, 3 operations of the environment, in all interleavings", workers=3)
            ck.design("Many", "ManyWQ", what="two streams' write sides, 4 operations of the environment, in all interleavings", workers=3)
        for b in MANY_BUGS:
            ck.design_bug("Many", "ManyBug_" + b, workers=2)
    walkargs = ["-simulate", "num=%d" % (3000 if T else 60), "-depth", "900", "-seed", str(ck.seed)]
    _, _, pool, gated, walks, buffered, cons = ck.par(
        build, design,
        lambda: scenarios(ck, "StreamGen" if T else "StreamGenQ", 8 if T else 2),
        lambda: scenarios(ck, "StreamGenLog" if T else "StreamGenLogQ", 8 if T else 3),
        lambda: scenarios(ck, "StreamWalk", 3, walkargs),
        lambda: scenarios(ck, "StreamGenBuf", 3),
        lambda: scenarios(ck, "StreamGenCons", 3))
    pools = dict(p=pool, g=gated, w=walks, b=buffered, c=cons)
    races(ck, "TestMany", 16000 if T else 1600)
    if ck.violations:
        return
    k, hist, modes, nev, seen, own, sizes = 0, {}, {}, 0, set(), 0, {}
    while k == 0 or (T and ck.elapsed() < 600):
        recs, where = [], []
        for mode, exe in sorted(exes.items()):
            sf, tr = ck.path("scn-%s.json" % mode), ck.path("trace-%s.json" % mode)
            if os.path.exists(tr):
                os.unlink(tr)
            scs = life_variants(ck, pools, 24000 if T else 15000, mode == "sched")
            groups = []
            while scs:
                n = ck.rng.choice([2] * 8 + [3] * 6 + [4] * 4 + [12, 30])
                groups.append(scs[:n])
                scs = scs[n:]
                for sc in groups[-1]:
                    if ck.rng.random() < 0.4:
                        sc["at"] = ck.rng.randrange(1, 8)
            json.dump(groups, open(sf, "w"))
            args = ["-scn", sf, "-seed", str(ck.seed)]
            for kind, at, err in ck.drive(exe, tr, args, test="TestMany"):
                hist[kind] = hist.get(kind, 0) + 1
                if kind == "crash" and not ("github.com/botlink/go-mavlink2" in err and ("panic:" in err or "fatal error:" in err)):
                    raise Infra("driver crashed: " + err)
                if kind == "crash" and not alone_bad(ck, exe, groups[at]):
                    ck.violation("the library crashed the process running streams %s" % groups[at],
                                 dict(scenarios=groups[at], stderr=err), "crash")
                    return
            for y in (vf.read_ndjson(tr) if os.path.exists(tr) else []):
                sizes[len(y["rec"]["many"])] = sizes.get(len(y["rec"]["many"]), 0) + 1
                for j, x in enumerate(y["rec"]["many"]):
                    modes[mode] = modes.get(mode, 0) + 1
                    key = hash(json.dumps([x["cfg"], x["ev"]]))
                    if key not in seen:
                        seen.add(key)
                        recs.append(x)
                        where.append((mode, groups[y["i"]], j))
        if not recs:
            raise Infra("nothing recorded")
        todo = list(range(len(recs)))
        while True:
            r = life_tlc(ck, [recs[i] for i in todo])
            if r.ok:
                break
            if not r.rejected:
                raise Infra("TLC: " + r.error)
            st = r.last_state()
            i = todo[int(st["r"]) - 1]
            at = int(st["i"])
            mode, group, j = where[i]
            if not alone_bad(ck, exes[mode], [group[j]], [x for m, g, _ in where if m == mode for x in g]):
                ck.violation("event %d of the history of stream %d of %d, %s, is not allowed, and the same stream alone does not do this (scenarios %s)" %
                             (at + 1, j + 1, len(group), json.dumps(recs[i]["ev"][at]), json.dumps(group)),
                             dict(scenarios=group, stream=j + 1, history=recs[i]["ev"][:at + 1], cfg=recs[i]["cfg"], observer=st,
                                  how=recs[i]["how"], spec="spec/StreamAbs.tla"), key="history")
                return
            # it does so alone, too: that is a matter of C06 to C10
            own += 1
            ck.log("not allowed alone either: %s" % json.dumps(group[j]))
            todo.remove(i)
            if own >= 8:
                break
        ck.traces += len(todo)
        nev += sum(len(recs[i]["ev"]) for i in todo)
        if k == 0 and not own:
            muts = []
            for x in ck.rng.sample(recs, len(recs)):
                m = mutate_life(["C06", "C07", "C08", "C09", "C10"][len(muts) % 5], x, ck.rng)
                if m:
                    muts.append(m)
                if len(muts) == 30:
                    break
            r = life_tlc(ck, muts, count=False, extra=["-continue"])
            n = len(set(re.findall(r"(?m)^/\\ r = (\d+)$", r.out)))
            if n != len(muts) or not muts:
                raise Infra("self-test: %d of %d corrupted histories rejected" % (n, len(muts)))
            ck.cov["corrupted_traces_rejected"] = n
            ck.samples = [dict(scenario=x["sc"], history=abbreviate(x["ev"], 60)) for x in ck.rng.sample(recs, min(3, len(recs)))]
        k += 1
        if own >= 8:
            break
    ck.cov.update(rounds=k, scenarios_from_specification=sum(len(x) for x in pools.values()), executions=modes, streams_side_by_side=sizes,
                  distinct_histories=len(seen), events_judged=nev, driver_failures=hist, not_allowed_alone_either=own)
    ck.assumptions = ["the environment (transports, contexts, consumers, producers, loggers) of the driver records what happens to it faithfully and shares nothing between streams",
                      "what a stream alone does wrong is judged by C06 to C10",
                      "interleavings of the real code are sampled; those of the design are exhaustive within the bounds"]


def alone_bad(ck, exe, group, others=()):
    """Whether streams that run alone, each in a process of its own, are not as
    they should be either: these (several times over) or others like them."""
    jobs = [dict(sc, seed=sc["seed"] + 7919 * m) for m in range(40) for sc in group]
    jobs += ck.rng.sample(list(others), min(len(others), 300))
    outs, bad, todo = [], [], list(enumerate(jobs))

    def work():
        while True:
            with ck.lock:
                if not todo or bad:
                    return
                k, sc = todo.pop(0)
            sf, out = ck.path("alone-%d.json" % k), ck.path("alone-%d.out" % k)
            if os.path.exists(out):
                os.unlink(out)
            json.dump([[sc]], open(sf, "w"))
            if ck.drive(exe, out, ["-scn", sf, "-seed", str(ck.seed)], test="TestMany", maxfail=1, quiet=True):
                bad.append(k)
            else:
                outs.append(out)
    ck.par(*[work] * 6)
    if bad:
        return True
    recs = [x for o in outs for y in vf.read_ndjson(o) for x in y["rec"]["many"]]
    r = life_tlc(ck, recs, count=False)
    if not r.ok and not r.rejected:
        raise Infra("TLC: " + r.error)
    return not r.ok


# --- UDP endpoints: C20, C21 ----------------------------------------------------

UDP_BUGS = dict(C20=["lastSender", "mute"], C21=["lockRead", "setOnFail"])


def printed(ck, module, cfg, workers, extra=()):
    r = ck.tlc(module, cfg, workers=workers, extra=extra, heap="8g")
    if not r.ok:
        raise Infra("%s/%s: %s" % (module, cfg, r.error))
    seen = sorted({json.loads(l)[4:] for l in r.out.splitlines() if l.startswith('"SCN ')})
    if not seen:
        raise Infra("%s/%s: no scenario" % (module, cfg))
    return [json.loads(x) for x in seen]


def udp_tlc(ck, recs, count=True, extra=()):
    p = ck.path("hist.json")
    vf.write_ndjson(p, [dict(ev=x["ev"]) for x in recs])
    return ck.tlc("TraceUdp", env=dict(TRACE=p, PROP=ck.prop), heap="12g", count=count, extra=extra)


def mutate_udp(prop, rec, rng):
    m = copy.deepcopy(rec)
    ev = m["ev"]

    def where(*names):
        return [i for i, e in enumerate(ev) if e["e"] in names]
    if prop == "C20":
        i = [i for i in where("out") if i]
        j = [i for i in where("rdRet") if ev[i]["err"] == ""]
        if i and rng.random() < 0.6:
            i = rng.choice(i)
            if rng.random() < 0.5:
                ev[i]["p"] = "Z"
            else:
                ev.insert(i, ev[i])
        elif j:
            ev[rng.choice(j)]["id"] = 0
        else:
            return None
    else:
        if rng.random() < 0.5:
            # a call that never comes back, and the endpoint is closed
            i = where("rdRet", "wrRet")
            if not i:
                return None
            del ev[rng.choice(i)]
        else:
            i = [i for i in where("rdRet", "wrRet") if ev[i]["err"] == "err"]
            i = [x for x in i if any(e["e"] == "closeRet" for e in ev[:[j for j, e in enumerate(ev)
                                     if e["e"] in ("rdCall", "wrCall") and e["k"] == ev[x]["k"]][0]])]
            if not i:
                return None
            i = rng.choice(i)
            ev[i]["err"] = ""
    return m


@plan("C20", "C21")
def udp(ck):
    exes = {}
    T = ck.thorough

    def build():
        exes["raw"] = ck.go_build("./udp", "udp.test", test=True)
        ov = ck.instrument()
        if ov:
            try:
                exes["sched"] = ck.go_build("./udp", "udps.test", test=True, overlay=ov)
            except Infra as e:
                ck.log("no instrumented build: %s" % str(e)[-800:])
        if ck.prop == "C21":
            exes["race"] = ck.go_build("./udp", "udpr.test", test=True, race=True)

    def design():
        ck.design("Udp", "UdpDeep" if T else "Udp", workers=6 if T else 4, heap="12g",
                  what="as built, in all interleavings of two readers, two writers, closing, arrivals and faults: %d operations" % (6 if T else 5))
        for b in UDP_BUGS[ck.prop]:
            ck.design_bug("Udp", "UdpBug_" + b, workers=2)
    _, _, pool, walks = ck.par(
        build, design,
        lambda: printed(ck, "UdpGen", "UdpGen", 4),
        lambda: printed(ck, "UdpGen", "UdpWalk", 3,
                        ["-simulate", "num=%d" % (3000 if T else 100), "-depth", "900", "-seed", str(ck.seed)]))
    ck.log("scenarios: %d + %d walks" % (len(pool), len(walks)))
    sizes = dict(raw=4000, sched=8000, real=700, storm=200, race=150, racefake=1500)
    if T:
        sizes = dict(raw=20000, sched=40000, real=6000, storm=3000, race=2000, racefake=10000)
    hist, modes, seen, nev = {}, {}, set(), 0

    def judge(recs):
        recs = list(recs)
        while recs:
            r = udp_tlc(ck, recs)
            if r.ok:
                break
            if not r.rejected:
                raise Infra("TLC: " + r.error)
            st = r.last_state()
            bad = recs[int(st["r"]) - 1]
            at = int(st["i"])
            if bad["mode"] in ("real", "storm", "race") and bad["ev"][at]["e"] in ("rest", "stuck") and \
                    not udp_again(ck, exes["raw"], bad):
                hist["not again"] = hist.get("not again", 0) + 1
                recs.remove(bad)
                continue
            ck.violation("event %d of the history, %s, is not allowed (%s, scenario %s)" %
                         (at + 1, json.dumps(bad["ev"][at])[:300], bad["mode"], json.dumps(bad["sc"])),
                         dict(scenario=bad["sc"], mode=bad["mode"], history=bad["ev"][:at + 1], observer=st, how=bad["how"],
                              spec="spec/UdpAbs.tla"), key="history")
            return False
        return True
    k = 0
    while k == 0 or (T and ck.elapsed() < 500):
        recs, judged = [], 0
        for mode in ("raw", "sched", None, "real", "storm", "race", "racefake", None):
            if mode is None:
                if not judge(recs[judged:]):
                    return
                judged = len(recs)
                continue
            exe = exes.get({"real": "raw", "storm": "raw", "racefake": "race"}.get(mode, mode))
            if not exe:
                continue
            sf, tr = ck.path("scn-%s.json" % mode), ck.path("trace-%s.json" % mode)
            if os.path.exists(tr):
                os.unlink(tr)
            scs = []
            for _ in range(sizes[mode]):
                sc = dict(ck.rng.choice(walks if ck.rng.random() < 0.6 else pool))
                if ck.rng.random() < 0.4:
                    sc["ops"] = [["A"], ["r1"]] + sc["ops"]
                sc.update(seed=ck.rng.randrange(1 << 30), sched=mode == "sched")
                scs.append(sc)
            json.dump(scs, open(sf, "w"))
            args = ["-scn", sf, "-seed", str(ck.seed)]
            if mode in ("real", "storm", "race"):
                args.append("-real")
            if mode in ("storm", "race"):
                args.append("-storm")
            reports = []
            fails = ck.drive(exe, tr, args, env=dict(GORACE="halt_on_error=0 log_path=" + ck.path("race")), timeout=300)
            for f in sorted(os.listdir(ck.dir)):
                if f.startswith("race."):
                    txt = open(ck.path(f), errors="replace").read()
                    os.unlink(ck.path(f))
                    reports += [b for b in re.findall(r"(?s)WARNING: DATA RACE.*?==================", txt)
                                if "botlink/go-mavlink2" in b]
            rs = [dict(x["rec"], i=x["i"]) for x in (vf.read_ndjson(tr) if os.path.exists(tr) else [])]
            for kind, at, err in fails:
                hist[kind] = hist.get(kind, 0) + 1
                if kind == "crash":
                    if "github.com/botlink/go-mavlink2" in err and ("panic:" in err or "fatal error:" in err):
                        rs.append(dict(ev=[dict(e="panic", report=err)], sc=scs[at] if at < len(scs) else {}, how="crash"))
                    elif not reports:
                        raise Infra("driver crashed: " + err)
            for b in reports[:2]:
                rs.append(dict(ev=[dict(e="race", report=b[:3000])], sc={}, how="race"))
            modes[mode] = modes.get(mode, 0) + len(rs)
            for x in rs:
                x.update(mode=mode, args=args)
                if x["how"] == "hang" and not hangs_again(ck, exe, x["i"], args):
                    x["ev"] = [e for e in x["ev"] if e["e"] != "stuck"]
                    hist["not again"] = hist.get("not again", 0) + 1
                h = hash(json.dumps(x["ev"]))
                if h not in seen:
                    seen.add(h)
                    recs.append(x)
        if not seen:
            raise Infra("nothing recorded")
        ck.traces += len(recs)
        nev += sum(len(x["ev"]) for x in recs)
        if k == 0:
            muts = []
            for x in ck.rng.sample(recs, len(recs)):
                m = mutate_udp(ck.prop, x, ck.rng)
                if m:
                    muts.append(m)
                if len(muts) == 30:
                    break
            r = udp_tlc(ck, muts, count=False, extra=["-continue"])
            n = len(set(re.findall(r"(?m)^/\\ r = (\d+)$", r.out)))
            if n != len(muts) or not muts:
                raise Infra("self-test: %d of %d corrupted histories rejected" % (n, len(muts)))
            ck.cov["corrupted_traces_rejected"] = n
            ck.samples = [dict(scenario=x["sc"], mode=x["mode"], history=abbreviate(x["ev"], 60))
                          for x in ck.rng.sample(recs, min(3, len(recs)))]
        k += 1
    ck.cov.update(rounds=k, scenarios_from_specification=len(pool) + len(walks), executions=modes, distinct_histories=len(seen),
                  events_judged=nev, driver_failures=hist)
    ck.assumptions = ["the stand-in socket, the peers and the callers of the driver record what happens to them faithfully",
                      "the loopback interface neither loses nor reorders the few datagrams of a scenario",
                      "interleavings of the real code are sampled; those of the design are exhaustive within the bounds"]


def udp_again(ck, exe, bad):
    """Something that did not happen in time in real time: does it again not happen?"""
    sf, out = ck.path("scn-again.json"), ck.path("again.json")
    json.dump([bad["sc"]] * 6, open(sf, "w"))
    if os.path.exists(out):
        os.unlink(out)
    args = [sf if a.endswith(".json") else a for a in bad["args"]]
    ck.drive(exe, out, args, timeout=200)
    rs = [x["rec"] for x in vf.read_ndjson(out)]
    return bool(rs) and not udp_tlc(ck, rs, count=False).ok


# --- many UDP endpoints: C27 ----------------------------------------------------

PORTS_BUGS = ["keep", "fallback", "wide", "share", "inherit", "wrap", "deafClose"]


def ports_tlc(ck, recs, count=True, extra=()):
    p = ck.path("hist.json")
    vf.write_ndjson(p, [dict(ev=x["ev"]) for x in recs])
    return ck.tlc("TracePorts", env=dict(TRACE=p), heap="8g", count=count, extra=extra)


def mutate_ports(rec, rng):
    m = copy.deepcopy(rec)
    ev = m["ev"]
    how = rng.choice(["open", "out", "rdRet", "wrRet"])
    i = [k for k, e in enumerate(ev) if e["e"] == how and (how in ("open", "out") or e["err"] == "")]
    if not i:
        return None
    e = ev[rng.choice(i)]
    if how == "open":
        e["ok"] = not e["ok"]
        e["made"] = e["ok"]
        if e["ok"] and e["a"] in ("remote", "broken"):
            return None
    elif how == "out":
        if rng.random() < 0.5:
            e["p"] = "49152"
        else:
            e["s"] = "s3"
    elif how == "rdRet":
        e["id"] = 0
    else:
        e["full"] = False
    return m


def run_ports(ck, exe, scs, seed, name):
    sf, out = ck.path("scn-%s.json" % name), ck.path("trace-%s.json" % name)
    json.dump(scs, open(sf, "w"))
    p = subprocess.run([exe, "-scn", sf, "-out", out, "-seed", str(seed)], capture_output=True, text=True, errors="replace",
                       timeout=600)
    if p.returncode != 0:
        if ("panic:" in p.stderr or "fatal error:" in p.stderr) and "github.com/botlink/go-mavlink2" in p.stderr:
            return [dict(i=0, ev=[dict(e="panic", report=p.stderr[-4000:])])]
        raise Infra("driver: " + p.stderr[-3000:])
    return vf.read_ndjson(out)


@plan("C27")
def ports(ck):
    T = ck.thorough

    def design():
        ck.design("Ports", "PortsDeep" if T else "Ports", workers=6 if T else 4, heap="8g",
                  what="all sequences of %d operations on up to three endpoints and another program's socket" % (8 if T else 5))
        for b in PORTS_BUGS:
            ck.design_bug("Ports", "PortsBug_" + b, workers=2)
    exe, _, pool = ck.par(
        lambda: ck.go_build("./ports", "ports"), design,
        lambda: printed(ck, "PortsGen", "PortsGen", 3,
                        ["-simulate", "num=%d" % (2500 if T else 200), "-depth", "200", "-seed", str(ck.seed)]))
    ck.log("scenarios: %d" % len(pool))
    ops, nev, k, again = {}, 0, 0, 0
    while k == 0 or (T and ck.elapsed() < 500):
        seed = ck.seed * 1000 + k
        scs = ck.rng.sample(pool, min(len(pool), 4000))
        recs = run_ports(ck, exe, scs, seed, "all")
        ck.log("driver ran: %d histories" % len(recs))
        left = list(recs)
        while left:
            r = ports_tlc(ck, left)
            if r.ok:
                break
            if not r.rejected:
                raise Infra("TLC: " + r.error)
            st = r.last_state()
            bad = left[int(st["r"]) - 1]
            at = int(st["i"])
            sc = scs[bad["i"]]
            # other programs may use the same ports, and a datagram may be late: it must happen again
            if bad["ev"][at]["e"] != "panic" and ports_tlc(ck, run_ports(ck, exe, [sc] * 6, seed + 7, "again"), count=False).ok:
                again += 1
                left.remove(bad)
                if again > 20:
                    raise Infra("the loopback interface is not reliable")
                continue
            ck.violation("event %d of the history, %s, is not allowed" % (at + 1, json.dumps(bad["ev"][at])[:300]),
                         dict(scenario=sc, history=bad["ev"][:at + 1], observer=st, spec="spec/PortsAbs.tla"), key="history")
            return
        ck.traces += len(left)
        for x in left:
            nev += len(x["ev"])
            for e in x["ev"]:
                ops[e["e"]] = ops.get(e["e"], 0) + 1
        if k == 0:
            muts = []
            for x in ck.rng.sample(left, len(left)):
                m = mutate_ports(x, ck.rng)
                if m:
                    muts.append(m)
                if len(muts) == 30:
                    break
            r = ports_tlc(ck, muts, count=False, extra=["-continue"])
            n = len(set(re.findall(r"(?m)^/\\ r = (\d+)$", r.out)))
            if n != len(muts) or not muts:
                raise Infra("self-test: %d of %d corrupted histories rejected" % (n, len(muts)))
            ck.cov["corrupted_traces_rejected"] = n
            ck.samples = [dict(scenario=scs[x["i"]], history=abbreviate(x["ev"], 60)) for x in ck.rng.sample(left, min(3, len(left)))]
        k += 1
    ck.cov.update(rounds=k, scenarios_from_specification=len(pool), events_judged=nev, events_by_kind=ops, not_again=again)
    ck.assumptions = ["the loopback interface neither loses nor reorders the few datagrams of a scenario, and no other program uses the two ports of a scenario (what fails must fail again)",
                      "the host binds sockets as Linux does: two sockets conflict if their ports are the same and their addresses are, or one address is unspecified"]


# --- two streams back to back: C23 ---------------------------------------------

def link_tlc(ck, tables, recs, count=True, extra=()):
    p = ck.path("hist.json")
    vf.write_ndjson(p, [dict(ev=x["ev"], sent=x["sent"]) for x in recs])
    return ck.tlc("TraceLink", env=dict(TABLES=tables, TRACE=p), heap="12g", count=count, extra=extra)


def mutate_link(rec, rng):
    m = copy.deepcopy(rec)
    ev = m["ev"]
    i = [k for k, e in enumerate(ev) if e["e"] == "recv"]
    if len(i) < 2:
        return None
    k = rng.choice(i)
    how = rng.randrange(4)
    if how == 0:
        del ev[k]
    elif how == 1:
        ev.insert(k, ev[k])
        if sum(1 for e in ev if e["e"] == "recv" and e["s"] == ev[k]["s"]) <= 0:
            return None
    elif how == 2:
        ev[k]["seq"] ^= 1
    else:
        b = ev[k]["back"]
        ev[k]["back"] = b[:-1] + [[x ^ 64 for x in b[-1]]]
        if len(b[-1]) in (4, 8) and b[-1][0] % 128 in (127, 63):
            return None    # may turn one NaN into another
    return m


@plan("C23")
def link(ck):
    T = ck.thorough
    tables = ck.tables()
    exes = {}

    def build():
        exes["raw"] = ck.go_build("./link", "link.test", test=True)
        ov = ck.instrument()
        if ov:
            try:
                exes["sched"] = ck.go_build("./link", "links.test", test=True, overlay=ov)
            except Infra as e:
                ck.log("no instrumented build: %s" % str(e)[-800:])
        exes["race"] = ck.go_build("./link", "linkr.test", test=True, race=True)

    def design():
        ck.design("Link", "LinkDeep" if T else "Link", workers=6 if T else 3, heap="12g",
                  what="two streams back to back: %s messages each way, noise, consumers that hold back" % ("3" if T else "2"))
        if T:
            ck.design("Link", "LinkLive", workers=6, heap="12g", what="everything arrives (liveness)")
        for b in ["shared", "skip", "lossy", "late"]:
            ck.design_bug("Link", "LinkBug_" + b, workers=2)
    _, _, pool = ck.par(build, design,
                        lambda: printed(ck, "LinkGen", "LinkGen", 3,
                                        ["-simulate", "num=%d" % (2000 if T else 100), "-depth", "300", "-seed", str(ck.seed)]))
    sizes = dict(raw=1500, sched=800, udp=250, race=120)
    if T:
        sizes = dict(raw=3000, sched=1500, udp=1000, race=300)
    hist, modes, nmsg, nev, nrec = {}, {}, 0, 0, 0
    types = set()
    k = 0
    while k == 0 or (T and ck.elapsed() < 600):
        recs = []
        for mode in ("raw", "sched", "udp", "race"):
            exe = exes.get("raw" if mode == "udp" else mode)
            if not exe:
                continue
            sf, tr = ck.path("scn-%s.json" % mode), ck.path("trace-%s.json" % mode)
            if os.path.exists(tr):
                os.unlink(tr)
            scs = []
            for _ in range(sizes[mode]):
                sc = dict(ck.rng.choice(pool))
                sc.update(seed=ck.rng.randrange(1 << 30), sched=mode == "sched", cap=ck.rng.choice([1, 7, 64, 300, 5000, 100000]),
                          seg=ck.rng.choice([1, 3, 20, 300, 5000]), wait=ck.rng.choice([1, 3, 8]), long=0)
                x = ck.rng.random()
                if mode != "udp" and x < 0.15:
                    sc["long"] = ck.rng.choice([10, 20, 40])
                elif mode == "raw" and x < 0.18:
                    sc["long"] = 300
                scs.append(sc)
            json.dump(scs, open(sf, "w"))
            args = ["-scn", sf, "-seed", str(ck.seed)] + (["-udp"] if mode == "udp" else [])
            reports = []
            fails = ck.drive(exe, tr, args, env=dict(GORACE="halt_on_error=0 log_path=" + ck.path("race")), timeout=300)
            for f in sorted(os.listdir(ck.dir)):
                if f.startswith("race."):
                    txt = open(ck.path(f), errors="replace").read()
                    os.unlink(ck.path(f))
                    reports += [b for b in re.findall(r"(?s)WARNING: DATA RACE.*?==================", txt)
                                if "botlink/go-mavlink2" in b]
            rs = [dict(x["rec"], i=x["i"]) for x in (vf.read_ndjson(tr) if os.path.exists(tr) else [])]
            none = dict(ab=[], ba=[])
            for kind, at, err in fails:
                hist[kind] = hist.get(kind, 0) + 1
                if kind == "crash":
                    if "github.com/botlink/go-mavlink2" in err and ("panic:" in err or "fatal error:" in err):
                        rs.append(dict(ev=[dict(e="panic", report=err)], sent=none, sc=scs[at] if at < len(scs) else {}, how="crash"))
                    elif not reports:
                        raise Infra("driver crashed: " + err)
            for b in reports[:2]:
                rs.append(dict(ev=[dict(e="race", report=b[:3000])], sent=none, sc={}, how="race"))
            modes[mode] = modes.get(mode, 0) + len(rs)
            for x in rs:
                x.update(mode=mode, args=args)
                if x["how"] == "hang" and not hangs_again(ck, exe, x["i"], args):
                    x["ev"] = [e for e in x["ev"] if e["e"] != "stuck"]
                    hist["not again"] = hist.get("not again", 0) + 1
                recs.append(x)
        if not recs:
            raise Infra("nothing recorded")
        while True:
            r = link_tlc(ck, tables, recs)
            if r.ok:
                break
            if not r.rejected:
                raise Infra("TLC: " + r.error)
            st = r.last_state()
            bad = recs[int(st["r"]) - 1]
            at = int(st["i"])
            if bad["mode"] == "udp" and bad["ev"][at]["e"] == "rest" and not link_again(ck, tables, exes["raw"], bad):
                hist["not again"] = hist.get("not again", 0) + 1
                recs.remove(bad)
                continue
            e = bad["ev"][at]
            n = int(st["na" if e.get("s") == "ab" else "nb"])
            want = bad["sent"][e["s"]][n:n + 1] if e.get("s") else []
            ck.violation("event %d, %s, is not what crosses a link (%s)" % (at + 1, json.dumps(e)[:300], bad["mode"]),
                         dict(scenario=bad["sc"], mode=bad["mode"], event=e, expected=want, history=bad["ev"][max(0, at - 6):at + 1],
                              how=bad["how"], spec="spec/TraceLink.tla"), key="history")
            return
        ck.traces += len(recs)
        nev += sum(len(x["ev"]) for x in recs)
        for x in recs:
            for m in x["sent"]["ab"] + x["sent"]["ba"]:
                nmsg += 1
                types.add((m["d"], m["id"]))
        if k == 0:
            muts = []
            for x in ck.rng.sample(recs, len(recs)):
                m = mutate_link(x, ck.rng)
                if m:
                    muts.append(m)
                if len(muts) == 24:
                    break
            r = link_tlc(ck, tables, muts, count=False, extra=["-continue"])
            n = len(set(re.findall(r"(?m)^/\\ r = (\d+)$", r.out)))
            if n != len(muts) or not muts:
                raise Infra("self-test: %d of %d corrupted histories rejected" % (n, len(muts)))
            ck.cov["corrupted_traces_rejected"] = n
            ck.samples = [dict(scenario=x["sc"], mode=x["mode"], history=abbreviate(x["ev"][:12], 20))
                          for x in ck.rng.sample(recs, min(3, len(recs)))]
        k += 1
    ck.cov.update(rounds=k, scenarios_from_specification=len(pool), executions=modes, messages_sent=nmsg,
                  message_types_sent=len(types), events_judged=nev, driver_failures=hist)
    ck.assumptions = ["the driver's link keeps the bytes and their order (noise goes between frames only)",
                      "the loopback interface neither loses nor reorders the few datagrams of a scenario",
                      "spec/mavlink_defs.json states the MAVLink definitions the dialects are generated from"]


def link_again(ck, tables, exe, bad):
    sf, out = ck.path("scn-again.json"), ck.path("again.json")
    json.dump([bad["sc"]] * 6, open(sf, "w"))
    if os.path.exists(out):
        os.unlink(out)
    args = [sf if a.endswith(".json") else a for a in bad["args"]]
    ck.drive(exe, out, args, timeout=200)
    rs = [x["rec"] for x in vf.read_ndjson(out)]
    return bool(rs) and not link_tlc(ck, tables, rs, count=False).ok
