#!/usr/bin/env python3
"""Vacuity probe: ask the verifier, at the start of every contracted function, between its statements and at the
start of every block, to prove `false`. Each such request must FAIL: one that is proved sits on a path that the
preconditions, the assumed contracts or the axioms rule out. A first run asks for all of them at once; what did not
fail there (resource limits) is asked again one by one. Prints the places where false was proved.
usage: probe.py [SRC] [threadsafe]"""
import sys, os, re, subprocess, tempfile, json, shutil, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = sys.argv[1] if len(sys.argv) > 1 else "/repo/src"
mode = sys.argv[2:3]


def once(want):
    """-> {(function, probe): (failed?, next source text)}, functions that ran out of resources"""
    tmp = tempfile.mkdtemp(prefix="cbv-probe-")
    try:
        subprocess.run([V + "/tool/target/release/cbv", "extract", src, V, tmp] + mode, env=dict(os.environ, CBV_PROBE=want), check=True, stderr=subprocess.DEVNULL)
        text = open(tmp + "/lib.rs").read().split("\n")
        ex = json.load(open(tmp + "/extract.json"))
        p = subprocess.run(["verus", "lib.rs", "--crate-type", "lib", "--multiple-errors", "100", "--num-threads", "8", "--error-format=json", "--rlimit", "60"], cwd=tmp, capture_output=True, text=True)
    finally:
        shutil.rmtree(tmp)
    def fn(l):
        for f in ex["fns"]:
            if f["out_start"] <= l <= f["out_end"]:
                return f
        return {"key": "?", "case": None}
    places, at = {}, collections.Counter()
    for i, l in enumerate(text):
        m = re.search(r"probe_\((\d+)int\)", l)
        if m:
            places[i + 1] = (fn(i + 1)["key"], int(m.group(1)))
    failed, over, other = set(), set(), []
    for l in p.stderr.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("level") != "error" or d["message"].startswith("aborting"):
            continue
        ls = [s["line_start"] for s in d["spans"]]
        hit = [x for x in ls if x in places]
        if hit:
            failed |= {places[x] for x in hit}
        elif "rlimit" in d["message"]:
            over.add(next((fn(x)["key"] for x in range(ls[0], ls[0] + 12) if fn(x)["key"] != "?" and "fn " + fn(x)["key"].split("::")[-1] in "\n".join(text[ls[0] - 1:ls[0] + 11])), str(ls)))
        else:
            other.append(d["message"][:100])
    near = {places[l]: next((x.strip() for x in text[l:l + 4] if x.strip()), "")[:90] for l in places}
    return set(near), failed, over, other, near


allp, failed, over, other, near = once("1")
left = sorted(allp - failed)
print("%d probes in %d functions: %d failed at once; other errors %s; out of resources %s" % (len(allp), len({a for a, _ in allp}), len(failed), other, sorted(over)), flush=True)
proved, lost = [], []
while left:
    take = {}
    for k, n in left:
        take.setdefault(k, n)
    want = [(k, n) for k, n in take.items()]
    a, f, o, other, _ = once(",".join("%s#%d" % w for w in want))
    for w in want:
        left.remove(w)
        if w not in f:
            (lost if w[0] in o else proved).append(w)
    print("asked again: %d, %d failed, %d left" % (len(want), len(f), len(left)), flush=True)
for w in proved:
    print("false is proved:", w, near[w])
for w in lost:
    print("no answer:", w, near[w])
print("%d probes, %d failed as they must, %d proved false, %d without an answer" % (len(allp), len(allp) - len(proved) - len(lost), len(proved), len(lost)))
