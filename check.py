#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property of /repo: extracts the current source into a Verus crate, has Verus discharge
every obligation, and reports a violation when an obligation the property rests on fails. A failed
obligation is then turned into a concrete input by a search that runs /repo's crate next to the text
that was proved. See DESIGN.md."""
import collections, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CBV_REPO", "/repo")
TOOL = VERIF + "/tool/target/release/cbv"
T0 = time.time()
ENV = dict(os.environ, CARGO_NET_OFFLINE="true")
for k in ("CBV_DEV", "CBV_EXTERNAL", "CBV_DROP"):
    ENV.pop(k, None)
THREADS = max(2, min(8, os.cpu_count() or 4))
ALL = ["C%02d" % i for i in range(1, 19)]


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


def sh(cmd, timeout=None, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=env or ENV, cwd=cwd, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return -9, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "timeout"


def die(msg):
    print("check.py: " + msg, flush=True)
    sys.exit(2)


# ---------------------------------------------------------------- building
def build_tool():
    rc, o, e = sh(["cargo", "build", "--release", "--offline"], 600, cwd=VERIF + "/tool")
    if rc != 0:
        die("cannot build the extractor: " + e[-2000:])


def build_witness(threadsafe=False):
    """the search program, against /repo's current tree; None if that does not build"""
    td = VERIF + "/harness/target" + ("-ts" if threadsafe else "")
    cmd = ["cargo", "build", "--release", "--offline", "--target-dir", td]
    if threadsafe:
        cmd += ["--features", "threadsafe"]
    src = VERIF + "/harness"
    if REPO != "/repo":  # development only: another tree
        alt = os.path.join(tempfile.gettempdir(), "cbv-alt-" + hashlib.sha1(REPO.encode()).hexdigest()[:8] + ("-ts" if threadsafe else ""))
        shutil.rmtree(alt + "/src", ignore_errors=True)
        os.makedirs(alt, exist_ok=True)
        shutil.copytree(src + "/src", alt + "/src")
        t = open(src + "/Cargo.toml").read().replace('"/repo"', '"%s"' % REPO).replace('"../reference"', '"%s/reference"' % VERIF)
        open(alt + "/Cargo.toml", "w").write(t)
        shutil.copy(src + "/Cargo.lock", alt)
        cmd[cmd.index(td)] = alt + "/target" + ("-ts" if threadsafe else "")
        td = cmd[cmd.index("--target-dir") + 1]
        src = alt
    rc, o, e = sh(cmd, 600, cwd=src)
    if rc != 0:
        log("the search program does not build against this tree:", e[-600:].replace("\n", " | "))
        return None
    return td + "/release/witness"


# ---------------------------------------------------------------- verifier
VER_MSG = re.compile(
    r"postcondition not satisfied|precondition not|possible arithmetic|assertion fail|invariant not satisfied|"
    r"loop ensures|decreases not satisfied|could not prove termination|division by zero|unreachable|"
    r"Resource limit|rlimit|possible overflow|bit shift|array index|index in bounds|termination|"
    r"cannot show|may fail|not satisfied|requires not|while loop: ")
SAFETY = re.compile(r"arithmetic|overflow|division|shift|index in bounds|decreases|termination|precondition not|unreachable")


def extract(out, ts, external=(), drop=()):
    env = dict(ENV)
    if external:
        env["CBV_EXTERNAL"] = ",".join(external)
    if drop:
        env["CBV_DROP"] = ",".join(drop)
    cmd = [TOOL, "extract", REPO + "/src", VERIF, out] + (["threadsafe"] if ts else [])
    rc, o, e = sh(cmd, 120, env=env)
    if rc != 0:
        return None, e.strip()
    return json.load(open(out + "/extract.json")), ""


def verus(out, extra=(), timeout=420):
    cmd = ["verus", "lib.rs", "--crate-type", "lib", "--output-json", "--time-expanded", "--error-format=json",
           "--multiple-errors", "4", "--num-threads", str(THREADS)] + list(extra)
    t = time.time()
    rc, o, e = sh(cmd, timeout, cwd=out)
    res = None
    i = o.find("{")
    if i >= 0:
        try:
            res = json.loads(o[i:])
        except ValueError:
            res = None
    errs = []
    for l in e.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("level") == "error" and d.get("spans") and not d["message"].startswith("aborting"):
            errs.append(d)
        elif d.get("level") in ("error", "note", "warning") and "rlimit" in d.get("message", ""):
            errs.append(d)
    return {"rc": rc, "json": res, "errs": errs, "stderr": e, "cmd": " ".join(cmd), "s": time.time() - t}


LIMIT = "resource limit"


class Failure:
    def __init__(self, fn, kind, msg, clause, where, text):
        self.fn, self.kind, self.msg, self.clause, self.where, self.text = fn, kind, msg, clause, where, text

    def name(self):
        return "%s: %s%s" % (self.fn or self.where, self.msg, " [%s]" % self.clause if self.clause else "")


def fn_at(ex, line):
    best = None
    for f in ex["fns"]:
        if f["out_start"] <= line < f["out_end"]:
            if best is None or f["out_start"] > best["out_start"]:
                best = f
    return best


def spec_fn_at(lines, line):
    for i in range(min(line, len(lines)) - 1, -1, -1):
        m = re.match(r"\s*(?:pub )?(?:open |broadcast |closed )*(?:proof|spec)(?:\(\w+\))? fn (\w+)", lines[i])
        if m:
            return m.group(1)
    return None


def verify(tmp, ts):
    """run the verifier on the current source; functions it cannot be given are set aside"""
    out = os.path.join(tmp, "ex" + ("_ts" if ts else ""))
    os.makedirs(out, exist_ok=True)
    external, drop, notes = set(), set(), []
    r = {"ok": False, "failures": [], "aside": {}, "notes": notes, "verified": 0, "errors": 0, "smt_ms": 0, "cmd": "", "s": 0.0,
         "ex": None, "lost": None}
    for attempt in range(8):
        ex, err = extract(out, ts, external, drop)
        if ex is None:
            r["lost"] = "extraction failed: " + err[-500:]
            return r
        v = verus(out)
        r["cmd"], r["s"] = v["cmd"], r["s"] + v["s"]
        lines = open(out + "/lib.rs").read().split("\n")
        vr = (v["json"] or {}).get("verification-results", {})
        front = [e for e in v["errs"] if not VER_MSG.search(e["message"])]
        bad_front = (v["json"] is None or vr.get("encountered-vir-error") or vr.get("verified", 0) == 0)
        if bad_front:
            # the verifier rejects the text: set the functions concerned aside and try again
            new = False
            for e in front or v["errs"]:
                for s in e["spans"]:
                    f = fn_at(ex, s["line_start"]) if s["file_name"].endswith("lib.rs") else None
                    if f is None or not s["is_primary"]:
                        continue
                    k = f["key"]
                    if not f["external"] and k not in external:
                        external.add(k)
                        new = True
                    elif k not in drop:
                        drop.add(k)
                        new = True
                    notes.append("%s set aside: %s" % (k, e["message"][:150]))
            if not new or r["s"] > 400:
                r["lost"] = "the verifier rejects the extracted text: " + "; ".join(
                    "%s @%s" % (e["message"][:120], e["spans"][0]["line_start"] if e["spans"] else "") for e in (front or v["errs"])[:4]) + (
                    v["stderr"][-300:] if not v["errs"] else "")
                return r
            continue
        r["ex"] = ex
        r["verified"], r["errors"] = vr.get("verified", 0), vr.get("errors", 0)
        r["ok"] = bool(vr.get("success"))
        for m in v["json"].get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
            r["smt_ms"] += sum(f.get("time", 0) for f in m.get("function-breakdown", []))
        for e in v["errs"]:
            prim = [s for s in e["spans"] if s["is_primary"]] or e["spans"]
            inlib = [s for s in e["spans"] if s["file_name"].endswith("lib.rs")]
            f = None
            for s in prim + e["spans"]:
                if s["file_name"].endswith("lib.rs"):
                    f = fn_at(ex, s["line_start"])
                    if f:
                        break
            line = prim[0]["line_start"] if prim else 0
            clause = lines[line - 1].strip()[:160] if prim and prim[0]["file_name"].endswith("lib.rs") and line else ""
            ctx = " ".join(lines[s["line_start"] - 1] for s in inlib if s["line_start"] <= len(lines))
            kind = "post"
            if "rlimit" in e["message"] or "Resource limit" in e["message"]:
                kind = "rlimit"
            elif "vec_with_capacity_" in ctx and "precondition" in e["message"]:
                kind = "capacity"
            elif SAFETY.search(e["message"]):
                kind = "safety"
            nm = f["key"] if f else (spec_fn_at(lines, line) or "spec")
            r["failures"].append(Failure(nm if f else None, kind, e["message"], clause, nm, e.get("rendered", "")))
        for f in ex["fns"]:
            if f["external"] or not f["contracted"]:
                r["aside"][f["key"]] = "no contract" if not f["contracted"] else "contract assumed"
        for k in ex["missing"]:
            r["aside"][k] = "function is gone"
        for k in ex["unsupported"]:
            r["aside"]["source: " + k] = "not part of the extracted text"
        return r
    r["lost"] = "too many functions the verifier cannot be given"
    return r


# ---------------------------------------------------------------- what changed
def infos(tmp):
    a, b = tmp + "/now.json", tmp + "/ref.json"
    rc, _, e = sh([TOOL, "info", REPO + "/src", VERIF, a])
    if rc != 0:
        return None, None
    sh([TOOL, "info", VERIF + "/reference/src", VERIF, b])
    return json.load(open(a)), json.load(open(b))


def norm(t):
    return re.sub(r"\s+", "", t)


def changed_fns(now, ref):
    """functions whose text is not the proved one (None: everything may be affected, types or constants differ)"""
    rt = collections.defaultdict(list)
    for f in ref["fns"]:
        rt[f["key"]].append(norm(f["text"]))
    ch = {f["key"] for f in now["fns"] if norm(f["text"]) not in rt.get(f["key"], [])}
    ch |= set(rt) - {f["key"] for f in now["fns"]}
    ch = {c for c in ch if not c.startswith("error::")}
    skip = lambda i: i["file"] == "error.rs" or "thread_local" in i["text"]
    items = sorted(norm(i["text"]) for i in now["items"] if not skip(i)) != sorted(norm(i["text"]) for i in ref["items"] if not skip(i))
    return ch, items


def focus(now, ref):
    """attributes whose reading involves a changed function or a changed arm of read_attributes"""
    def arms(info):
        for f in info["fns"]:
            if f["key"] == "attributes::read_attributes":
                p = re.split(r'"(\w+)"\s*=>', f["text"])
                return dict(zip(p[1::2], p[2::2]))
        return {}
    a, b = arms(now), arms(ref)
    ch, _ = changed_fns(now, ref)
    chn = {k.split("::")[-1] for k in ch} - {"read_attributes"}
    body = {f["key"].split("::")[-1]: f["text"] for f in now["fns"]}
    out = []
    for n, t in a.items():
        seen, todo = set(), [t]
        while todo:
            for c in re.findall(r"(\w+)\s*\(", todo.pop()):
                if c not in seen and c in body and c != "read_attributes":
                    seen.add(c)
                    todo.append(body[c])
        if norm(t) != norm(b.get(n, "")) or seen & chn:
            out.append(n)
    return out if len(out) <= 12 else []


def write_dict(path, now, ref):
    ri, rs = set(ref["ints"]), set(ref["strs"])
    with open(path, "w") as f:
        for a in focus(now, ref):
            f.write("A %s\n" % a)
        for x in now["ints"]:
            f.write(("i " if x in ri else "I ") + x + "\n")
        for x in now["strs"]:
            f.write(("s " if x in rs else "S ") + x.encode().hex() + "\n")


# ---------------------------------------------------------------- search for a concrete input
class Witness:
    def __init__(self, what, file, props):
        self.what, self.file, self.props = what, file, props


MSG_PROPS = [
    (r"Extra bytes found|Length mismatch|Unexpected length|Unexpected end of stream reading (attributes|code)", ["C03"]),
    (r"Unexpected end of stream reading u\d", ["C03", "C04"]),
    (r"Unexpected end of stream reading CONSTANT", ["C03", "C05"]),
    (r"duplicate of|BootstrapMethods|init method|expected (none|0) for module|with MODULE|MODULE class access", ["C17"]),
    (r"Unexpected magic", ["C12"]),
    (r"Invalid unqualified name for class", ["C08", "C12"]),
    (r"Invalid unqualified name for", ["C08", "C11"]),
    (r"Invalid (unqualified|binary|module|classinfo) name", ["C06", "C08"]),
    (r"Invalid (field|method) descriptor", ["C06", "C07"]),
    (r"Invalid destination|Invalid opcode offset|convert offset", ["C10"]),
    (r"opcode|tableswitch|lookupswitch|array type", ["C09"]),
    (r"nested too deeply", ["C01", "C11"]),
    (r"self-reference|out-of-bounds index|Out-of-bounds index|Unexpected constant pool reference|non-loadable", ["C06"]),
    (r"constant pool entry type|reference kind|takes up two|utf-8", ["C05"]),
    (r"unqualified segment|class name|field type|field descriptor|method descriptor|Dimensions", ["C07"]),
    (r"verification type|discriminant|target type|path kind|access flags|requires flags|exports flags|opens flags", ["C11"]),
]


def msg_props(text):
    for rx, ps in MSG_PROPS:
        if re.search(rx, text):
            return list(ps)
    return None


def fn_of_line(info, file, line):
    for f in info["fns"]:
        if f["file"] == file and f["line"] <= line <= f["end"]:
            return f
    return None


def fn_of_msg(info, msg):
    best = None
    for f in info["fns"]:
        for m in f["msgs"]:
            p = m.split("{")[0]
            if len(p) > 6 and msg.startswith(p) and (best is None or len(p) > best[0]):
                best = (len(p), f)
    return best[1] if best else None


def project(what, now, ref):
    """the properties a difference in behaviour speaks about"""
    props = set()
    while True:
        m = re.match(r"(nobytecode|option):(.*)", what, re.S)
        if not m:
            break
        props.add("C13")
        what = m.group(2)
    kind, _, rest = what.partition("|")
    if kind in ("hang", "crash"):
        props.add("C01")
        if "allocation" in rest or "SIGABRT" in rest or "signal: 6" in rest:
            props.add("C16")
    elif kind == "alloc":
        props.add("C16")
    elif kind == "panic":
        props.add("C01")
        m = re.search(r"(\w+\.rs):(\d+)", rest)
        if "iterate" in rest.split(" ")[0]:
            props.add("C02")
        if "classname" in rest:
            props.add("C07")
        if m:
            f = fn_of_line(now, m.group(1), int(m.group(2)))
            if f:
                props |= set(f["owners"])
    elif kind == "classname":
        props |= {"C07", "C08"}
        m = re.match(r".* gives (.*), expected (.*)$", rest, re.S)
        if m and m.group(1) != "None" and m.group(2) != "None":
            props = {"C07", "C14", "C18"}
    elif kind == "differs":
        tags = set(rest.split(","))
        direct = {"head": ["C12"], "attr": ["C11"], "code": ["C09"], "pool": ["C02", "C05"]}
        hit = False
        for t in tags:
            if t in direct:
                props |= set(direct[t])
                hit = True
        if "jump" in tags and "code" not in tags:
            props.add("C10")
            hit = True
        if "desc" in tags:
            props.add("C07")
            hit = True
        if "disp" in tags and "desc" not in tags:
            props.add("C18")
            hit = True
        if not hit and "borrow" in tags:
            props.add("C14")
    elif kind in ("accepts", "rejects"):
        parts = rest.split("|", 1)
        text = parts[1] if kind == "accepts" and len(parts) > 1 else rest
        ps = msg_props(text)
        if ps is not None:
            props |= set(ps)
        f = None
        if kind == "accepts":
            m = re.match(r".*?(\w+\.rs):(\d+)", parts[0])
            if m:
                f = fn_of_line(ref, m.group(1), int(m.group(2)))
        else:
            f = fn_of_msg(now, text)
        if f:
            ow = set(f["owners"]) - {"C01"}
            # the class reader's owners are told apart by the message
            props |= ow if ps is None or not f["key"].startswith("lib::") else set()
    return props


def search(exe, tmp, secs, seed, dictf, now, ref, tag, maxper=10**9):
    out = os.path.join(tmp, "search-" + tag)
    rc, o, e = sh([exe, "search", str(secs), str(seed), str(THREADS), dictf, VERIF + "/harness/seeds", out, str(maxper)], secs + 120)
    ws, n, acc = [], 0, 0
    for l in o.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d["sig"] == "end":
            n += d["n"]
            acc += d["accepted"]
            continue
        if d["what"].startswith("refpanic"):
            log("note: the reference itself panicked:", d["what"][:200], d["file"])
            continue
        ws.append(Witness(d["what"], d["file"], project(d["what"], now, ref)))
    return ws, n, acc


# ---------------------------------------------------------------- known findings
def known():
    out = []
    p = VERIF + "/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) match=(\S+) (.*)", l.strip())
            if m:
                out.append((m.group(1), m.group(2), m.group(3)))
    return out


# ---------------------------------------------------------------- the check
def write_replay(prop, name, text, data=None, ext="class"):
    d = VERIF + "/evidence/replay"
    os.makedirs(d, exist_ok=True)
    p = "%s/%s-%s.txt" % (d, prop, name)
    if data is not None:
        q = "%s/%s-%s.%s" % (d, prop, name, ext)
        open(q, "wb").write(data)
        text = ("Input: %s (%d bytes)\nRun:   harness/target/release/witness one %s show\nHex:   %s\n\n" % (q, len(data), q, data[:4096].hex())) + text
    open(p, "w").write(text)
    return os.path.relpath(p, VERIF)


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if prop not in ALL:
        die("unknown property " + prop)
    thorough = tier == "thorough"
    build_tool()
    tmp = tempfile.mkdtemp(prefix="cbv-")
    try:
        sys.exit(run(prop, tier, thorough, seed, tmp))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(prop, tier, thorough, seed, tmp):
    both = prop == "C15" or thorough
    now, ref = infos(tmp)
    if now is None:
        die("/repo/src does not parse as Rust")
    changed, items_changed = changed_fns(now, ref)
    dictf = tmp + "/dict"
    write_dict(dictf, now, ref)
    pool = cf.ThreadPoolExecutor(4)
    fw = pool.submit(build_witness, False)
    fts = pool.submit(build_witness, True) if prop == "C15" else None
    log("verifying", "(both configurations)" if both else "")
    res = verify(tmp, False)
    res_ts = verify(tmp, True) if both else None
    runs = [("default", res)] + ([("threadsafe", res_ts)] if both else [])
    for n, r in runs:
        log("%s configuration: %d obligations discharged, %d failed, %.1f s%s" % (
            n, r["verified"], r["errors"], r["s"], ", LOST: " + r["lost"] if r["lost"] else ""))
        for x in r["notes"][:10]:
            log("  ", x)

    byk = {f["key"]: f for f in now["fns"]}
    refk = {f["key"]: f for f in ref["fns"]}

    def owners(k):
        f = byk.get(k) or refk.get(k) or {}
        return set(f.get("owners") or []) | {"C01"}

    def classify(r):
        """failed obligations that stand, and functions about which the verifier said nothing"""
        hard, soft = [], dict(r["aside"])
        if r["lost"]:
            soft["*"] = r["lost"]
        unc = {k.split("::")[-1] for k, why in r["aside"].items() if why == "no contract"}
        calls = {f["key"]: set(f["calls"]) for f in (r["ex"] or {"fns": []})["fns"]}
        for f in r["failures"]:
            k = f.fn
            if k is None:
                # a lemma about the specification: it speaks about constants or types of the source
                if items_changed or changed:
                    soft[f.where] = "lemma no longer holds: " + f.name()
                else:
                    soft[f.where] = "unstable: " + f.name()
            elif calls.get(k, set()) & unc:
                soft[k] = "calls functions without a contract: " + ", ".join(sorted(calls[k] & unc))
            elif "closure?" in calls.get(k, ()):
                soft[k] = "passes a closure whose meaning the verifier is not told"
            elif f.kind == "rlimit":
                soft[k] = LIMIT
            elif k not in changed and not items_changed:
                soft[k] = "the function did not change; proof unstable: " + f.name()
            else:
                hard.append(f)
        return hard, soft

    hard, soft = classify(res)
    # functions that changed and that the solver gave up on are asked again, alone, with more resources
    pend = [k for k, why in soft.items() if why == LIMIT and (k in changed or items_changed)] if res["ex"] else []
    fl = pool.submit(insist, tmp, res, pend) if pend else None
    exe = fw.result()
    ws, n, acc = [], 0, 0

    def hunt(secs, tag):
        """look for an input; True if there is one for this property"""
        nonlocal ws, n, acc
        w, a, b = search(exe, tmp, secs, seed * 1000 + len(tag) * 17 + int(tag[1:]), dictf, now, ref, tag)
        ws += w
        n += a
        acc += b
        fo = set()
        for f in hard:
            fo |= owners(f.fn)
        return any(prop in x.props for x in ws) or bool(ws and prop in fo and prop not in ("C01", "C16"))

    # a proof that fails only under some solver seeds is still a proof
    hit = False
    if hard and res["ex"]:
        keys = sorted({f.fn for f in hard})
        log("failed:", "; ".join(f.name()[:140] for f in hard[:6]))
        hit = bool(exe) and hunt(12, "a0")
        for s in () if hit else (7, 31) if not thorough else (7, 31, 101, 977):
            if time.time() - T0 > 500 and not thorough:
                break
            still = retry(tmp, res, keys, s)
            gone = set(keys) - still
            for k in gone:
                log("  discharged with another solver seed:", k)
            hard = [f for f in hard if f.fn in still]
            keys = sorted(still)
            if not keys:
                break
    if fl:
        hit = hit or bool(exe) and hunt(12, "b0")
        more, clear = fl.result()
        for k in clear:
            log("  discharged with more resources:", k)
            soft.pop(k, None)
        for f in more:
            log("  failed:", f.name()[:160])
            soft.pop(f.fn, None)
        hard += more
    hard_ts, soft_ts = classify(res_ts) if res_ts else ([], {})
    # search: a look after a clean proof, a hunt after anything else
    clean = not hard and not soft and not (prop == "C15" and (hard_ts or soft_ts))
    if exe:
        plan = [4 if not items_changed else 12] if clean and not thorough else [120] if clean else [12, 30, 60] if not thorough else [20, 60, 240, 600]
        for i, secs in enumerate([] if hit else plan):
            if hunt(secs, "d%d" % i) or time.time() - T0 > 600 and not thorough:
                break
        log("search: %d inputs (%d accepted), %d differences" % (n, acc, len(ws)))
        for x in ws[:8]:
            log("   ", x.what[:200].replace("\n", " "), sorted(x.props))

    found = []  # (replay, no_input)
    kn = known()

    def is_known(w):
        for p, m, t in kn:
            if p == prop and m in w.what:
                return True
        return False

    for p, m, t in kn:
        if p == prop:
            print("KNOWN-FINDING: property=%s %s" % (p, t))

    def describe(fs):
        return "".join("Failed obligation in %s\n  %s\n  %s\n%s\n" % (f.fn or f.where, f.msg, f.clause, f.text) for f in fs[:8])

    def relevant(f):
        if f.kind == "capacity":
            return prop == "C16"
        if f.kind == "safety":
            return prop == "C01" or (prop in owners(f.fn) and prop not in ("C16",))
        return prop in owners(f.fn) - {"C01", "C16"}

    if prop != "C15":
        mine = [f for f in hard if relevant(f)]
        live = [w for w in ws if not is_known(w)]
        direct = [w for w in live if prop in w.props]
        # functions the verifier said nothing about, but which behave differently: their properties too
        softown = set()
        for k in soft:
            softown |= owners(k) - {"C01"} if k in byk or k in refk else set()
        via = [w for w in live if (mine and prop not in ("C01", "C16")) or prop in softown and prop not in ("C01", "C16")]
        w = (sorted(direct, key=lambda w: os.path.getsize(w.file)) or sorted(via, key=lambda w: os.path.getsize(w.file)) or [None])[0]
        if w is not None:
            data = open(w.file, "rb").read()
            ext = w.file.rsplit(".", 1)[1]
            rc, o, e = sh([exe, "one", w.file, "show"], 60)
            txt = "Property %s is violated on this input: %s\n\n%s\n%s" % (prop, w.what, describe(mine), o[:20000])
            if soft:
                txt += "\nNot decided by the verifier: %s\n" % json.dumps(soft, indent=1)
            found.append((write_replay(prop, "input", txt, data, ext), False))
        elif mine:
            txt = "Property %s rests on obligations that fail on this source; no failing input was found in %d inputs.\n\n%s" % (prop, n, describe(mine))
            found.append((write_replay(prop, "obligation", txt), True))
    else:
        found += c15(tmp, now, ref, exe, fts.result() if fts else None, hard, soft, hard_ts, soft_ts, ws, seed, dictf, thorough, res_ts)

    for rp, noin in found:
        print("VIOLATION property=%s replay=%s%s" % (prop, rp, " no-failing-input-found" if noin else ""), flush=True)
    evidence(prop, tier, seed, runs, hard, soft, hard_ts, soft_ts, n, acc, found, thorough)
    return 1 if found else 0


def retry(tmp, res, keys, s):
    """which of these functions still fail with another solver seed"""
    out = os.path.join(tmp, "ex")
    still = set()

    def one(k):
        parts = k.split("::")
        split = any(f["key"] == k and f["split"] for f in res["ex"]["fns"])
        v = verus(out, ["--verify-root", "--verify-function", "*" + parts[-1] + ("__case*" if split else ""), "--smt-option", "smt.random_seed=%d" % s, "--rlimit", "60"], 150)
        vr = (v["json"] or {}).get("verification-results", {})
        if v["json"] is None or vr.get("encountered-vir-error") or vr.get("verified", 0) + vr.get("errors", 0) == 0:
            return k  # could not be re-run: it stands
        for e in v["errs"]:
            for sp in e["spans"]:
                f = fn_at(res["ex"], sp["line_start"]) if sp["file_name"].endswith("lib.rs") else None
                if f and f["key"] == k:
                    return k
        return None if vr.get("success") else k

    with cf.ThreadPoolExecutor(4) as p:
        for r in p.map(one, keys[:8]):
            if r:
                still.add(r)
    return still | set(keys[8:])


def insist(tmp, res, keys):
    """the functions on which the solver reached its resource limit, one by one with twelve times as much:
    what fails then, and what is discharged; no answer again is an obligation that is not discharged"""
    out = os.path.join(tmp, "ex")

    def one(k):
        parts = k.split("::")
        split = any(f["key"] == k and f["split"] for f in res["ex"]["fns"])
        v = verus(out, ["--verify-root", "--verify-function", "*" + parts[-1] + ("__case*" if split else ""), "--rlimit", "120"], 330)
        vr = (v["json"] or {}).get("verification-results", {})
        if v["json"] is None or vr.get("encountered-vir-error") or vr.get("verified", 0) + vr.get("errors", 0) == 0:
            return [Failure(k, "rlimit", "the verifier does not accept the function within its resource limit", "", k, v["stderr"][-2000:])]
        lines = open(out + "/lib.rs").read().split("\n")
        fs = []
        for e in v["errs"]:
            sp = [s for s in e["spans"] if s["file_name"].endswith("lib.rs")]
            mine = [s for s in sp if (fn_at(res["ex"], s["line_start"]) or {}).get("key") == k]
            if not mine:
                continue
            kind, msg = "post", e["message"]
            ctx = " ".join(lines[s["line_start"] - 1] for s in sp if s["line_start"] <= len(lines))
            if "rlimit" in msg or "Resource limit" in msg:
                kind, msg = "rlimit", "the verifier does not accept the function within its resource limit"
            elif "vec_with_capacity_" in ctx and "precondition" in msg:
                kind = "capacity"
            elif SAFETY.search(msg):
                kind = "safety"
            prim = [s for s in sp if s["is_primary"]] or mine
            fs.append(Failure(k, kind, msg, lines[prim[0]["line_start"] - 1].strip()[:160], k, e.get("rendered", "")))
        return fs

    more, clear = [], []
    with cf.ThreadPoolExecutor(3) as p:
        for k, fs in zip(keys[:6], p.map(one, keys[:6])):
            more += fs
            if not fs:
                clear.append(k)
    # a definite failure outweighs a limit reached in another case of the same function
    sure = {f.fn for f in more if f.kind != "rlimit"}
    return [f for f in more if f.kind != "rlimit" or f.fn not in sure], clear


def c15(tmp, now, ref, exe, exe_ts, hard, soft, hard_ts, soft_ts, ws, seed, dictf, thorough, res_ts):
    """both configurations satisfy the same functional contracts, hence agree"""
    found = []
    d, t = {f.fn for f in hard}, {f.fn for f in hard_ts}
    if hard_ts and t - d:
        keys = sorted(t - d)
        rr = dict(res_ts)
        still = set(keys)
        os.rename(tmp + "/ex", tmp + "/ex_default")
        os.rename(tmp + "/ex_ts", tmp + "/ex")
        for s in (7, 31):
            still = retry(tmp, rr, sorted(still), s) if still else still
        t = (t & d) | still
    only = sorted((t - d) | (d - t))
    ok = exe and exe_ts
    if ok:
        secs = [5] if not (hard or soft or hard_ts or soft_ts) else [15, 40]
        if thorough:
            secs = [60, 240]
        for i, sec in enumerate(secs):
            w2, n2, a2 = search(exe_ts, tmp, sec, seed * 1000 + 500 + i, dictf, now, ref, "t%d" % i)
            log("search (threadsafe): %d inputs, %d differences" % (n2, len(w2)))
            for w in (w2 + ws)[:200]:
                if w.file.endswith(".name"):
                    continue
                a = sh([exe, "digest", w.file], 30)
                b = sh([exe_ts, "digest", w.file], 30)
                if a[:2] != b[:2]:
                    data = open(w.file, "rb").read()
                    txt = "The two configurations disagree on this input.\n== default\n%s\n== threadsafe\n%s\n" % (a[1][:9000] + a[2][:300], b[1][:9000] + b[2][:300])
                    found.append((write_replay("C15", "input", txt, data), False))
                    return found
    if only:
        fs = [f for f in hard + hard_ts if f.fn in only]
        txt = "Obligations that hold in one configuration and fail in the other; no input on which they differ was found.\n\n" + "".join(
            "%s\n%s\n" % (f.name(), f.text) for f in fs[:8])
        found.append((write_replay("C15", "obligation", txt), True))
    return found


def trusted():
    out = []
    for f in sorted(os.listdir(VERIF + "/contracts")):
        t = re.sub(r"//.*", "", open(VERIF + "/contracts/" + f).read())
        items, owner = [], ""
        for m in re.finditer(r"^impl[^\n{]*|assume_specification[^\[]*\[([^\]]*)\]|uninterp spec fn (\w+)|external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:broadcast )?(?:proof )?(?:fn|struct) (\w+)|^}", t, re.M):
            if m.group(0).startswith("impl"):
                owner = re.sub(r"^impl(<[^>]*>)? ", "", m.group(0)).strip() + "::"
            elif m.group(0) == "}":
                owner = ""
            else:
                items.append(owner + next(g for g in m.groups() if g))
        if items:
            out.append("contracts/%s: %d trusted items: %s" % (f, len(items), ", ".join(items)))
        for m in re.finditer(r"\bassume\(|\badmit\(", t):
            out.append("contracts/%s: ASSUME at offset %d" % (f, m.start()))
    return out


ASSUMPTIONS = [
    "the extraction's rewrites keep the meaning of the source (listed in DESIGN.md)",
    "std: slices, Vec, str/char iteration, Cow, Rc/Arc, RefCell/Mutex (never re-entered), HashSet, f32/f64::from_bits behave as specified in contracts/shim.rs (and, for functions the current source does not call, contracts/shim_std.rs)",
    "cesu8::from_java_cesu8 is a function of its bytes (uninterpreted)",
    "derived Clone/PartialEq/Hash of the crate's types are structural",
    "usize is 64 bits wide; no allocation exceeds isize::MAX bytes",
    "Verus (rustc front end, VC generation) and Z3 are correct",
]


def evidence(prop, tier, seed, runs, hard, soft, hard_ts, soft_ts, n, acc, found, thorough):
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    ex = runs[0][1]["ex"]
    fns = [f for f in (ex or {"fns": []})["fns"]]
    mine = sorted({f["key"] for f in fns if f["contracted"] and (prop in f["owners"] or prop in ("C01", "C15", "C16"))})
    ob = sum(r["verified"] + r["errors"] for _, r in runs)
    di = sum(r["verified"] for _, r in runs)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": ob, "discharged": di,
            "checker_cmd": runs[0][1]["cmd"],
            "trusted_base": trusted() + ASSUMPTIONS,
            "explanation": "obligations are the units Verus reports (function bodies against their contracts, lemmas, termination of specifications), each a set of Z3 queries",
            "functions_under_contract": len({f["key"] for f in fns if f["contracted"] and not f["external"]}),
            "functions_of_this_property": mine,
            "back_end": "Verus / Z3",
            "solver_ms": sum(r["smt_ms"] for _, r in runs),
            "verifier_s": round(sum(r["s"] for _, r in runs), 1),
            "configurations": [c for c, _ in runs],
            "left_out_by_extraction": (ex or {}).get("unsupported", []),
            "set_aside_bounded_only": {**soft, **{k + " (threadsafe)": v for k, v in soft_ts.items()}},
            "failed_obligations": [f.name()[:300] for f in hard + hard_ts][:20],
            "evaluations": n,
            "distinct_nontrivial": acc,
            "rule": "bounded stand-in and witness search, never counted as proved: generated class files (every tag, opcode, attribute; faults at random points); non-trivial = accepted by the proved text",
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - T0, 1),
        "violations": len(found),
    }
    json.dump(ev, open("%s/evidence/%s.json" % (VERIF, prop), "w"), indent=1)


if __name__ == "__main__":
    main()
