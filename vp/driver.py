"""Runs the obligations of a property against the current tree of /repo.

For each obligation:
 1. contract enforced by goto-instrument --dfcc on the real function (frame
    conditions included), decided by cbmc for all inputs;
 2. if something is not discharged, or if the obligation is a lemma over
    several calls: the same clauses evaluated by generated wrappers, for all
    inputs as well;
 3. if something is still not discharged: sizes are limited to get a
    counterexample that is replayed on the real code compiled by gcc, then
    pseudo random inputs if this gives nothing.
"""
import concurrent.futures as cf
import json
import os
import queue
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

from . import spec
from .registry import OBS

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
CHECKS = ["--no-standard-checks", "--no-malloc-may-fail", "--bounds-check",
          "--pointer-check", "--undefined-shift-check", "--div-by-zero-check",
          "--drop-unused-functions"]
JOBS = int(os.environ.get("VP_JOBS", "8"))

TRUSTED = [
    "cbmc 6.11.0 (goto-cc, goto-instrument --dfcc, cbmc with its bundled SAT solver)",
    "models of external functions in /verif/include (memory allocation, descriptors, system calls)",
    "LP64 little endian target, as compiled here",
]


SLOTS = threading.Semaphore(JOBS)


class ToolError(Exception):
    pass


class NegativeShift(Exception):
    pass


class Stopped(Exception):
    """a violation was already found and confirmed"""


STOP = threading.Event()
RUNNING = set()
LOCK = threading.RLock()


def run(cmd, timeout, cwd=None, env=None):
    with LOCK:
        if STOP.is_set():
            raise Stopped()
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             cwd=cwd, env=env, errors="replace")
        RUNNING.add(p)
    try:
        out, _ = p.communicate(timeout=max(timeout, 1))
        rc = p.returncode
    except subprocess.TimeoutExpired:
        p.kill()
        out, _ = p.communicate()
        rc = None
    finally:
        with LOCK:
            RUNNING.discard(p)
    if STOP.is_set():
        raise Stopped()
    return rc, out


def race(cmd, alt, delay, timeout):
    """cmd, and alt as well if it is not finished after the delay: the first
    that gives a result"""
    t0 = time.time()
    res = queue.Queue()
    procs = []

    def go(c, left):
        p = None
        try:
            with LOCK:
                if STOP.is_set():
                    raise Stopped()
                p = subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, errors="replace")
                RUNNING.add(p)
                procs.append(p)
            try:
                out, _ = p.communicate(timeout=max(left, 1))
                res.put((p.returncode, out))
            except subprocess.TimeoutExpired:
                p.kill()
                out, _ = p.communicate()
                res.put((None, out))
        except Stopped:
            res.put((None, ""))
        finally:
            with LOCK:
                RUNNING.discard(p)

    threads = [threading.Thread(target=go, args=(cmd, timeout))]
    threads[0].start()
    got, n, slot = None, 1, False
    try:
        while n > 0:
            try:
                got = res.get(timeout=None if slot else max(delay - (time.time() - t0), 1))
                n -= 1
                if got[0] in (0, 10):
                    break
            except queue.Empty:
                if time.time() - t0 >= delay and SLOTS.acquire(blocking=False):
                    slot = True
                    n += 1
                    threads.append(threading.Thread(target=go, args=(alt, timeout - (time.time() - t0))))
                    threads[1].start()
    finally:
        for p in procs:
            p.kill()
        for t in threads:
            t.join()
        if slot:
            SLOTS.release()
    if STOP.is_set():
        raise Stopped()
    return got


def stop_all():
    with LOCK:
        STOP.set()
        for p in RUNNING:
            p.kill()


class Context:
    def __init__(self, tmp, tier, seed):
        self.tmp, self.tier, self.seed = tmp, tier, seed
        self.specs = {}
        self.start = time.time()

    def contracts(self, harness):
        if harness not in self.specs:
            path = os.path.join(VERIF, "contracts", harness + ".spec")
            self.specs[harness] = spec.parse(path) if os.path.exists(path) else []
        return self.specs[harness]

    def elapsed(self):
        return time.time() - self.start

    def left(self, reserve=100):
        """what can still be used (the checks have 900 s)"""
        return max((800 if self.tier == "quick" else 100000) - reserve - self.elapsed(), 5)


def includes(d):
    return ["-I" + d, "-I" + os.path.join(VERIF, "include"),
            "-I" + os.path.join(VERIF, "harness"),
            "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "include")]


def prepare(ctx, ob, mode):
    """scratch directory with the generated headers; {line: label}"""
    d = tempfile.mkdtemp(prefix="%s-%s-" % (ob.id, mode), dir=ctx.tmp)
    cs = ctx.contracts(ob.harness)
    labels = {}
    if mode == "dfcc":
        text, labels = spec.gen_dfcc(cs, only={ob.fn})
        wrap = ""
    else:
        text, wrap = "", spec.gen_plain(cs) + spec.gen_replace(cs, ob.replace)
    wrap += ("void %s(void);\nvoid vp_main(void)\n{\n\tmemset(&vp_env, 0, sizeof(vp_env));\n"
             "\t%s();\n}\n" % (ob.entry, ob.entry))
    with open(os.path.join(d, "vp_contracts.h"), "w") as f:
        f.write(text)
    with open(os.path.join(d, "vp_wrappers.h"), "w") as f:
        f.write(wrap)
    return d, labels


def classify(line_no, name, desc, labels, fname):
    """(kind, label) of a cbmc property"""
    if desc.startswith("REACH:"):
        return "reach", desc[6:]
    if desc.startswith("VP:"):
        return "label", desc[3:]
    if ".postcondition" in name:
        return "label", labels.get(line_no, "?:" + desc)
    if "shift operand is negative" in desc:
        return "ignore", desc
    if "unwinding assertion" in desc or "recursion unwinding" in desc:
        return "unwind", name
    if ("is assignable" in desc or "is freeable" in desc or "ssignable" in desc or
            ".assigns" in name or ".frees" in name or name.startswith("__CPROVER_contracts")):
        return "frame", desc
    if "no-body" in name:
        return "nobody", desc
    return "mem", desc


LINE = re.compile(r"^\[([^\]]+)\] (?:file \S+ )?(?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$")
FUNC = re.compile(r"^(\S+) function (\S+)$")


def parse_text(out, labels):
    props = []
    fname = ""
    for l in out.splitlines():
        m = FUNC.match(l)
        if m:
            fname = m.group(1)
            continue
        m = LINE.match(l)
        if not m:
            continue
        kind, label = classify(int(m.group(2) or 0), m.group(1), m.group(3), labels, fname)
        props.append({"name": m.group(1), "line": m.group(2), "file": fname, "desc": m.group(3),
                      "ok": m.group(4) == "SUCCESS", "unknown": m.group(4) == "UNKNOWN", "kind": kind, "label": label})
    return props


def summarize(props):
    r = {"n": 0, "failed": [], "frame": [], "unwind": [], "vacuous": [], "labels": [], "unknown": []}
    for p in props:
        if p["kind"] == "reach":
            if p["ok"]:
                r["vacuous"].append(p["label"])
        elif p["kind"] == "ignore":
            pass
        else:
            r["n"] += 1
            if p["kind"] == "label":
                r["labels"].append(p["label"])
            if p["unknown"]:
                # Follows something that fails on every path
                r["unknown"].append(p)
            elif not p["ok"]:
                {"frame": r["frame"], "unwind": r["unwind"]}.get(p["kind"], r["failed"]).append(p)
    return r


def compile_goto(ctx, ob, mode, d, extra=()):
    vpc = "-DVPC(f)=f" if mode == "dfcc" else "-DVPC(f)=vpc_##f"
    gb = os.path.join(d, "a.gb")
    # Callees replaced by their contracts, unless the bodies are asked for
    replace = ob.replace if mode == "plain" and not any(
        "VP_BOUND" in e or "VP_FULL" in e for e in list(extra) + ob.defs) else ()
    stubs = ob.stubs if mode == "plain" and not any(
        "VP_BOUND" in e or "VP_FULL" in e for e in list(extra) + ob.defs) else ()
    if replace or stubs:
        extra = list(extra) + ["-DVP_REPLACE"]
    cmd = (["goto-cc"] + includes(d) + ["-DVP_DFCC" if mode == "dfcc" else "-DVP_PLAIN", vpc] +
           list(extra) + ob.defs + ["--function", "vp_main",
                                    os.path.join(VERIF, "harness", ob.harness + ".c"), "-o", gb])
    rc, out = run(cmd, 120)
    if rc != 0:
        raise ToolError("goto-cc failed for %s:\n%s" % (ob.id, out[-3000:]))
    if replace or stubs:
        gb2 = os.path.join(d, "r.gb")
        args = []
        for f in list(replace) + list(stubs):
            args += ["--replace-calls", "%s:%s_%s" % (f, "vpr" if f in replace else "stub", f)]
        rc, out = run(["goto-instrument"] + args + [gb, gb2], 120)
        if rc != 0:
            raise ToolError("goto-instrument failed for %s:\n%s" % (ob.id, out[-3000:]))
        gb = gb2
    if mode == "dfcc":
        gb2 = os.path.join(d, "b.gb")
        rc, out = run(["goto-instrument", "--no-malloc-may-fail", "--dfcc", "vp_main",
                       "--enforce-contract", ob.fn, gb, gb2], 300)
        if rc != 0:
            raise ToolError("goto-instrument failed for %s:\n%s" % (ob.id, out[-3000:]))
        gb = gb2
    return gb


def cbmc_cmd(ob, gb, unwind, bounded=False):
    cmd = ["cbmc"] + (["--sat-solver", "cadical"] if ob.cadical else []) + [c for c in CHECKS if not (ob.noshift and "shift" in c)] + ["--unwind", str(unwind), "--unwinding-assertions"] + ob.flags
    us = list(ob.unwindset) + (["vp_bytes.0:%d" % (ob.bound + 2)] if bounded else [])
    if us:
        cmd += ["--unwindset", ",".join(us)]
    return cmd + [gb]


def prove(ctx, ob, mode, unwind=None, extra=(), timeout=None, prop=None):
    try:
        return prove1(ctx, ob, mode, unwind, extra, timeout, prop)
    except NegativeShift:
        # What follows the shift of a negative value (defined by gcc) is not
        # decided by cbmc when this is checked
        ob.noshift = True
        return prove1(ctx, ob, mode, unwind, extra, timeout, prop)


def prove1(ctx, ob, mode, unwind=None, extra=(), timeout=None, prop=None):
    d, labels = prepare(ctx, ob, mode)
    gb = compile_goto(ctx, ob, mode, d, extra)
    cmd = cbmc_cmd(ob, gb, unwind or ob.unwind, any("VP_BOUND" in e for e in list(extra) + ob.defs))
    res = {"mode": mode, "cmd": " ".join(cmd).replace(d, "$TMP")}
    # Clauses of the other properties are decided by the checks of these
    with SLOTS:
        rc, out = run([c for c in cmd[:-1] if c not in ("--sat-solver", "cadical")] + ["--show-properties", gb], 120)
    names = [(m.group(1),) + classify(int(m.group(2) or 0), m.group(1), m.group(3), labels, "") for m in
             re.finditer(r"^Property (\S+):\n  (?:file \S+ )?(?:line (\d+) )?.*\n  (.*)\n", out, re.M)]
    if rc != 0 or not names:
        raise ToolError("no obligation found in %s:\n%s" % (ob.id, out[-2000:]))
    others = {n for n, k, lab in names if k == "label" and prop and not relevant({"kind": k, "label": lab}, prop)}
    groups = [[n for n, k, lab in names if n not in others]] if others else [[]]

    def one(group):
        c = list(cmd)
        for n in group:
            c[-1:-1] = ["--property", n]
        with SLOTS:
            t = time.time()
            # Some need much longer with one of the solvers, which one depends
            # on details
            alt = ([x for x in c if x != "--z3"] if "--z3" in c else [x for x in c if x not in ("--sat-solver", "cadical")] if "cadical" in c else
                   c[:1] + ["--sat-solver", "cadical"] + c[1:])
            rc, out = race(c, alt, 60, min(timeout or ob.timeout, ctx.left()))
            return rc, out, time.time() - t

    with cf.ThreadPoolExecutor(len(groups)) as ex:
        outs = list(ex.map(one, groups))
    res["seconds"] = round(sum(o[2] for o in outs), 2)
    shutil.rmtree(d, ignore_errors=True)
    if os.environ.get("VP_VERBOSE") == "2":
        for g, o in zip(groups, outs):
            print("   ", ob.id, mode, g[:2], "%.1f" % o[2])
    if any(o[0] is None or o[0] < 0 or o[0] == 6 for o in outs):
        # Not within the time or the memory
        res["timeout"] = True
        return res
    props = []
    for rc, out, _ in outs:
        ps = parse_text(out, labels)
        if rc not in (0, 10) or not ps:
            raise ToolError("cbmc failed for %s (rc %s):\n%s" % (ob.id, rc, out[-3000:]))
        if rc == 10 and all(p["ok"] for p in ps):
            raise ToolError("cbmc output of %s not understood:\n%s" % (ob.id, out[-3000:]))
        props += ps
    if not ob.noshift and any(p["kind"] == "ignore" and not p["ok"] for p in props):
        raise NegativeShift()
    if groups != [[]]:
        # Unwinding assertions are in every group
        seen = {}
        for p in props:
            q = seen.setdefault(p["name"], p)
            q["ok"] = q["ok"] and p["ok"]
        props = list(seen.values())
    rc = 0
    res.update(summarize(props))
    if mode == "dfcc":
        missing = {x for x in set(labels.values()) - set(res["labels"])
                   if not prop or relevant({"kind": "label", "label": x}, prop)}
        if missing:
            raise ToolError("%s: clauses not generated: %s" % (ob.id, sorted(missing)))
    return res


def relevant(p, prop):
    """does this failed property of cbmc concern the property"""
    if p["kind"] == "label":
        head = p["label"].split(":", 1)[0]
        return prop in head.split(",") or head in ("?", "pre")
    return True


def native_build(ctx, ob):
    d, _ = prepare(ctx, ob, "native")
    src = os.path.join(d, "n.c")
    with open(src, "w") as f:
        f.write('#include "%s.c"\n#include "%s"\n' % (ob.harness, os.path.join(VERIF, "vp", "native.c")))
    exe = os.path.join(d, "n")
    cmd = (["gcc", "-O1", "-g", "-w", "-fno-omit-frame-pointer",
            "-fsanitize=address,shift-exponent,bounds,null", "-fno-sanitize-recover=all"] +
           includes(d) + ["-DVP_NATIVE", "-DVPC(f)=vpc_##f",] + ob.defs +
           [src, "-o", exe, "-lpthread", "-lrt"])
    rc, out = run(cmd, 120)
    if rc != 0:
        raise ToolError("native build failed for %s:\n%s" % (ob.id, out[-3000:]))
    return exe, " ".join(cmd)


NATIVE_ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0",
                  UBSAN_OPTIONS="print_stacktrace=1")


def native_failures(out, rc, prop):
    """what of the output shows that the property is broken"""
    hits = []
    for l in out.splitlines():
        m = re.match(r"FAILED VP:([^:]*):(.*)", l)
        if m and (prop in m.group(1).split(",") or m.group(1) == "HANG"):
            hits.append(l)
    if "AddressSanitizer" in out or "runtime error:" in out:
        hits += [l for l in out.splitlines() if "ERROR: AddressSanitizer" in l or "runtime error:" in l][:2]
    elif rc is not None and rc < 0:
        hits.append("killed by signal %d" % -rc)
    return hits


def native_replay(exe, path, prop):
    rc, out = run([exe, "replay", path], 60, env=NATIVE_ENV)
    hits = native_failures(out, rc, prop)
    if rc is None:
        hits.append("does not end")
    if "ASSUME failed" in out and not hits:
        return [], out
    return hits, out


def traces(ctx, ob, prop, bound, unwind, timeout):
    """counterexamples: [(failed property, [inputs])]"""
    d, labels = prepare(ctx, ob, "plain")
    gb = compile_goto(ctx, ob, "plain", d, ["-DVP_BOUND=%d" % bound])
    cmd = cbmc_cmd(ob, gb, unwind, True)[:-1] + ["--trace", "--json-ui", gb]
    with SLOTS:
        rc, out = run(cmd, min(timeout, ctx.left(60)))
    shutil.rmtree(d, ignore_errors=True)
    if rc is None:
        return None
    try:
        doc = json.loads(out)
    except ValueError:
        return None
    res = []
    for item in doc:
        for p in item.get("result", []):
            if p.get("status") != "FAILURE":
                continue
            loc = p.get("sourceLocation", {})
            kind, label = classify(int(loc.get("line", 0) or 0), p["property"], p["description"], labels, "")
            q = {"name": p["property"], "desc": p["description"], "kind": kind, "label": label,
                 "file": loc.get("file", ""), "line": loc.get("line")}
            if kind not in ("label", "mem") or not relevant(q, prop):
                continue
            vals = []
            for st in p.get("trace", []):
                if st.get("stepType") == "assignment" and st.get("lhs") == "vp_log" and not st.get("hidden"):
                    v = st.get("value", {})
                    if "binary" in v:
                        vals.append(int(v["binary"], 2))
                    elif "data" in v:
                        vals.append(int(re.sub(r"[a-z]+$", "", v["data"])))
            # The initialisation of the variable comes first
            init = [st for st in p.get("trace", []) if st.get("stepType") == "assignment" and
                    st.get("lhs") == "vp_log"]
            if init and not init[0].get("hidden") and init[0].get("sourceLocation", {}).get("function") in (None, "", "__CPROVER_initialize"):
                vals = vals[1:]
            res.append((q, vals))
    return res


def write_replay(prop, ob, failed, vals, detail, confirmed):
    rd = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, "%s-%s.txt" % (prop, ob.id))
    with open(path, "w") as f:
        f.write("# property %s, obligation %s (%s)\n" % (prop, ob.id, ob.fn or "lemma"))
        f.write("# %s\n" % ("failing input, reproduced on the real code:" if confirmed else
                            "no failing input found; failed obligations:"))
        for p in failed:
            f.write("#   %s\n" % p)
        f.write("# to run it again: ./check %s --replay %s\n" % (prop, path))
        for l in detail.splitlines():
            f.write("# | %s\n" % l)
        for v in vals:
            f.write("%s\n" % v)
    return path


def describe(p):
    return "%s [%s] at %s:%s" % (p["label"], p["name"], p.get("file", ""), p.get("line", ""))


def random_inputs(ctx, ob, prop, exe, secs, text, info, first=0):
    """pseudo random inputs on the compiled code; true if something fails"""
    outs = [os.path.join(ctx.tmp, "rnd-%s-%d" % (ob.id, i)) for i in range(first, first + 4)]
    with cf.ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda x: run([exe, "random", str(ctx.seed * 64 + first + x[0]), str(secs), x[1], prop],
                                  secs + 60, env=NATIVE_ENV), enumerate(outs)))
    for out in outs:
        if os.path.exists(out):
            hits, txt = native_replay(exe, out, prop)
            if hits:
                vals = open(out).read().split()
                info["path"] = write_replay(prop, ob, text, vals, "\n".join(hits) + "\n" + txt[-3000:], True)
                info["confirmed"] = True
                return True
    return False


def investigate(ctx, ob, prop, failed):
    """the plain proof failed: look for an input that shows it"""
    text = [describe(p) for p in failed]
    info = {"failed": text}
    try:
        exe, cmd = native_build(ctx, ob)
    except ToolError as e:
        info["native"] = str(e)
        exe = None
    cand = []
    if exe:
        if ob.native and random_inputs(ctx, ob, prop, exe, 10, text, info):
            return info
        for bound, unwind, tmo in () if ob.modular and not ob.full else ((ob.bound, ob.unwind, 240),):
            tr = traces(ctx, ob, prop, bound, unwind, tmo)
            if tr is None:
                info["trace"] = "no counterexample within the time limit"
                continue
            info["trace"] = "%d counterexample(s)" % len(tr)
            for q, vals in tr[:12]:
                f = os.path.join(ctx.tmp, "cex-%s-%s" % (ob.id, re.sub(r"\W", "_", q["name"])))
                with open(f, "w") as fd:
                    fd.write("\n".join(map(str, vals)) + "\n")
                hits, out = native_replay(exe, f, prop)
                if hits:
                    info["path"] = write_replay(prop, ob, text, vals, "\n".join(hits) + "\n" + out[-3000:], True)
                    info["confirmed"] = True
                    return info
                cand.append((q, vals, out))
        # Pseudo random inputs
        if ob.native and random_inputs(ctx, ob, prop, exe, 40 if ctx.tier == "quick" else 240, text, info, 4):
            return info
    info["confirmed"] = False
    det = "\n".join("%s: %s" % (k, v) for k, v in info.items())
    for q, vals, out in cand[:3]:
        det += "\ncounterexample of the verifier for %s: %s\n%s" % (describe(q), vals[:400], out[-800:])
    info["path"] = write_replay(prop, ob, text, [], det, False)
    return info


def decide(ctx, ob, prop):
    """outcome: held / bounded / violation / undecided"""
    r = {"id": ob.id, "function": ob.fn, "level": ob.level, "runs": []}

    def note(res):
        r["runs"].append({k: v for k, v in res.items() if k not in ("failed", "frame", "unwind", "labels", "unknown")})

    # Contract enforced on the function, with its frame
    if ob.dfcc:
        try:
            res = prove(ctx, ob, "dfcc", prop=prop)
            note(res)
            if not res.get("timeout"):
                if res["vacuous"]:
                    r["reach"] = res["vacuous"]
                rel = [p for p in res["failed"] if relevant(p, prop)]
                if not rel and not res["frame"] and not res["unwind"] and not res["unknown"] and not res["vacuous"]:
                    r.update(outcome="held", mode="dfcc", n=res["n"], labels=res["labels"])
                    return r
                r["frame"] = [p["desc"] for p in res["frame"]][:10]
        except ToolError as e:
            r["dfcc_error"] = str(e)[-500:]

    # Same clauses without the frame
    failed = None
    unwind = ob.unwind
    for attempt in range(3):
        res = prove(ctx, ob, "plain", unwind=unwind, prop=prop)
        note(res)
        if res.get("timeout"):
            break
        rel = [p for p in res["failed"] if relevant(p, prop)]
        if rel:
            failed = rel
            break
        if res["vacuous"] and not res["unwind"]:
            r.update(outcome="vacuous", vacuous=res["vacuous"])
            return r
        if not res["unwind"] and res["unknown"]:
            break
        if not res["unwind"]:
            r.update(outcome="held", mode="plain", n=res["n"], labels=res["labels"])
            return r
        r["unwinding"] = [p["name"] for p in res["unwind"]][:5]
        unwind *= 3
        if ctx.elapsed() > 450:
            break

    if failed is not None:
        soft = [p for p in failed if p["kind"] != "label" or p["label"].startswith("pre:")]
        # The callees are not used as their contracts in the modular mode
        # expect it: nothing shows that the property is broken
        soft = ob.modular and (len(soft) == len(failed) or ob.soft)
        if soft:
            r["modular"] = [describe(p) for p in failed]
        if not soft or not ob.full:
            info = investigate(ctx, ob, prop, failed)
            if not soft or info["confirmed"]:
                r.update(outcome="violation", **info)
                return r
    extra = []
    if ob.modular and ob.full:
        # Bodies of the callees
        extra = ["-DVP_FULL"]
        res = prove(ctx, ob, "plain", extra=extra, prop=prop)
        note(res)
        if not res.get("timeout"):
            rel = [p for p in res["failed"] if relevant(p, prop)]
            if rel:
                r.update(outcome="violation", **investigate(ctx, ob, prop, rel))
                return r
            if not res["unwind"] and not res["unknown"] and not res["vacuous"]:
                r.update(outcome="held", mode="full", n=res["n"], labels=res["labels"])
                return r
    elif ob.modular:
        return stand_in(ctx, ob, prop, r)

    # Not decided for all sizes: bounded
    res = prove(ctx, ob, "plain", extra=["-DVP_BOUND=%d" % ob.bound],
                timeout=300, prop=prop)
    note(res)
    if res.get("timeout"):
        return stand_in(ctx, ob, prop, r)
    rel = [p for p in res["failed"] if relevant(p, prop)]
    if rel:
        info = investigate(ctx, ob, prop, rel)
        r.update(outcome="violation", **info)
        return r
    if res["unknown"]:
        return stand_in(ctx, ob, prop, r)
    r.update(outcome="bounded", mode="bounded", n=res["n"], labels=res["labels"],
             bound="sizes limited to %d bytes%s" % (ob.bound, ", loops not completely unwound" if res["unwind"] else ""))
    return r


def stand_in(ctx, ob, prop, r):
    """no proof: pseudo random inputs on the real code"""
    info = investigate(ctx, ob, prop, [])
    if info["confirmed"]:
        r.update(outcome="violation", **info)
        return r
    if info.get("native"):
        raise ToolError(info["native"])
    r.update(outcome="bounded", mode="random", n=0,
             bound="NOT PROVED (%s): pseudo random inputs on the compiled code only" % (
                 r.get("modular") or r.get("unwinding") or "no result of the verifier"))
    return r


def known_findings():
    path = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"finding: property=(\S+) obligation=(\S+) (.*)", l)
            if m:
                out.append(m.groups())
    return out


def is_known(prop, r):
    return [x for x in known_findings() if x[0] == prop and x[1] == r["id"] and
            all(any(lab in f for lab in x[2].split()[0].split(",")) for f in r["failed"])]


def check(prop, tier, seed, only=None):
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vp-%s-" % prop, dir=os.environ.get("TMPDIR", "/tmp"))
    ctx = Context(tmp, tier, seed)
    obs = [o for o in OBS if prop in o.props and (tier == "thorough" or o.tier == "quick")]
    if only:
        obs = [o for o in obs if re.search(only, o.id)]
    results, errors, stopped = [], [], []
    if not obs:
        errors.append("no obligation for %s" % prop)
    try:
        with cf.ThreadPoolExecutor(JOBS) as ex:
            futs = {ex.submit(decide, ctx, o, prop): o for o in sorted(obs, key=lambda o: -o.cost)}
            for f in cf.as_completed(futs):
                o = futs[f]
                try:
                    results.append(f.result())
                    if results[-1].get("confirmed") and not is_known(prop, results[-1]):
                        stop_all()
                    if os.environ.get("VP_VERBOSE"):
                        r = results[-1]
                        print("%-24s %-10s %-6s %s %s" % (
                            r["id"], r["outcome"], r.get("mode", ""),
                            "@%.0fs " % (time.time() - t0) + " ".join("%s:%.1fs" % (x["mode"], x["seconds"]) for x in r["runs"]),
                            r.get("dfcc_error", "") or r.get("frame", "") or ""), flush=True)
                except Stopped:
                    stopped.append(o.id)
                except ToolError as e:
                    errors.append(str(e))
                except Exception as e:  # noqa
                    errors.append("%s: %r" % (o.id, e))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    results.sort(key=lambda r: r["id"])
    viol = [r for r in results if r["outcome"] == "violation"]
    reported = 0
    rc = 0
    for r in viol:
        k = is_known(prop, r)
        if k:
            print("KNOWN-FINDING: property=%s %s" % (prop, k[0][2]))
            continue
        reported += 1
        rc = 1
        for f in r["failed"]:
            print("  not discharged: %s: %s" % (r["id"], f))
        print("VIOLATION property=%s replay=%s%s" % (
            prop, r["path"], "" if r["confirmed"] else " no-failing-input-found"))
    for r in results:
        if r["outcome"] == "vacuous":
            errors.append("%s: never reached: %s" % (r["id"], r["vacuous"]))
        elif r["outcome"] == "timeout":
            errors.append("%s: not decided within the time limit" % r["id"])
    for e in errors:
        print("ERROR: " + e)
    if errors and rc == 0:
        rc = 2
    held = [r for r in results if r["outcome"] == "held" and r["level"] == "proof"]
    bounded = [r for r in results if r["outcome"] == "bounded" or (r["outcome"] == "held" and r["level"] == "bounded")]
    nlab = lambda r: len([x for x in r.get("labels", []) if prop in x.split(":", 1)[0].split(",")])
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": sum(r.get("n", 1) for r in results if r not in bounded),
            "discharged": sum(r.get("n", 0) for r in held),
            "checker_cmd": next((r["runs"][0]["cmd"] for r in results if r["runs"]), ""),
            "trusted_base": TRUSTED,
            "back_end": "cbmc 6.11.0, propositional reduction, MiniSat 2.2.1 or CaDiCaL 2.0",
            "clauses_of_this_property": sum(nlab(r) for r in held),
            "functions_under_contract": sorted({r["function"] for r in held if r["function"]}),
            "bounded_obligations": [
                {"id": r["id"], "obligations": r.get("n"), "bound": r.get("bound") or
                 next((o.note for o in obs if o.id == r["id"]), "")} for r in bounded],
            "units": [{"id": r["id"], "function": r["function"], "outcome": r["outcome"], "mode": r.get("mode"),
                       "obligations": r.get("n"), "clauses": r.get("labels"),
                       "solver_s": round(sum(x["seconds"] for x in r["runs"]), 2),
                       "frame_not_discharged": r.get("frame", [])} for r in results],
            "solver_s": round(sum(x["seconds"] for r in results for x in r["runs"]), 2),
        },
        "assumptions": sorted({o.note for o in obs if o.note}) + [
            "the environment behaves as modelled in /verif/include/vp*.h",
            "log output (POMP_LOG macros through stderr) is not verified",
            "unwinding assertions are checked: loops listed as proved are completely unwound for every input",
        ],
        "not_run": sorted(stopped),
        "wall_s": round(time.time() - t0, 2), "violations": reported,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s: %d unit(s), %d proved, %d bounded, %d violation(s), %.1f s" % (
        prop, len(results), len(held), len(bounded), reported, time.time() - t0))
    return rc


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--only", help="regular expression on the obligations")
    ap.add_argument("--replay")
    ap.add_argument("--random", type=int, help="development: seconds of pseudo random inputs for each obligation")
    a = ap.parse_args(argv)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    signal.signal(signal.SIGTERM, lambda *x: (stop_all(), os._exit(3)))
    if a.replay:
        oid = os.path.basename(a.replay)[len(a.property) + 1:-len(".txt")]
        ob = [o for o in OBS if o.id == oid][0]
        tmp = tempfile.mkdtemp(prefix="vp-")
        try:
            exe, cmd = native_build(Context(tmp, tier, seed), ob)
            hits, out = native_replay(exe, a.replay, a.property)
            print(out)
            return 1 if hits else 0
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    if a.random:
        tmp = tempfile.mkdtemp(prefix="vp-")
        bad = 0
        try:
            for o in OBS:
                if (a.property == "all" or a.property in o.props) and re.search(a.only or "", o.id):
                    exe, _ = native_build(Context(tmp, tier, seed), o)
                    rc, out = run([exe, "random", str(seed), str(a.random), os.path.join(tmp, "o")],
                                  a.random + 60, env=NATIVE_ENV)
                    reach = ""
                    print("%-30s rc %s %s" % (o.id, rc, out[-1500:] if rc else out.strip()), flush=True)
                    bad |= rc != 0
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        return bad
    return check(a.property, tier, seed, a.only)
