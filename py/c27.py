"""C27: the split tool, run on every enumerated stream; the produced files are compared with the model's cut points."""
import contextlib, io, itertools, json, multiprocessing, os, shutil, subprocess, sys
import build as B
sys.path.append(os.path.join(B.REPO, "tools"))            # should the script come to use modules beside it

CODE = None; TOOL = None; ROOT = None; ERR = ""; SHARDS = 16


def compile_gen(scratch):
    exe = B.harness("NONE", scratch, {"src": "gen_units", "tools": [("h264nal", False)]})
    if exe is None: return None
    out = subprocess.run([exe], stdout=subprocess.PIPE, check=True, errors="replace").stdout
    al = json.loads(out)
    for u in al: u["b"] = bytes.fromhex(u["hex"])
    return al


def cases(al, thorough):
    """(label, prefix, [(start code, unit)], suffix): every stream, in a fixed order."""
    core = [u for u in al if u["grp"] == "core"]; bad = [u for u in al if u["grp"] == "bad"]; base = [u for u in al if u["grp"] == "base"]; dev = [u for u in al if u["grp"] == "dev"]
    S4, S3, S5 = b"\0\0\0\1", b"\0\0\1", b"\0\0\0\0\1"
    for n in range(1, 5 if thorough else 4):
        for t in itertools.product(core, repeat=n): yield ("units", b"", [(S4, u) for u in t], b"")
    sps = [u for u in core if u["type"] == 7][:3] + [core[7]]
    for n in range(2, 5 if thorough else 4):
        for t in itertools.product(sps, repeat=n):
            for sc in itertools.product((S3, S4, S5), repeat=n):
                yield ("start codes", b"", list(zip(sc, t)), b"")
    for t in itertools.product(sps[:3], repeat=5): yield ("changes", b"", [(S4, u) for u in t], b"")
    for pre in (b"\0", b"\0\0", b"\x01", b"\xff\0", b"\0\0\0", b"abc", b"\0\0\x03"):
        for suf in (b"", b"\0", b"\0\0\0"):
            for t in itertools.product(sps[:2] + [core[7]], repeat=3): yield ("leading and trailing bytes", pre, [(S4, u) for u in t], suf)
            for t in itertools.product(sps[:2], repeat=2): yield ("leading and trailing bytes", pre, [(S3, u) for u in t], suf)
    a, b = core[0], core[1]
    for u in base + dev:
        yield ("set " + u["name"], b"", [(S4, a), (S3, u), (S4, a)], b"")
        yield ("set " + u["name"], b"", [(S4, u), (S4, core[7]), (S4, u), (S3, b)], b"")
    for x in bad:
        for t in itertools.permutations([a, b, x]): yield ("unparsable unit", b"", [(S4, u) for u in t], b"")
    yield ("many changes", b"", [(S4, (a, b)[i % 2]) for i in range(120)], b"")
    big = dict(b); big["b"] = b["b"]
    sei = {"type": 6, "w": 0, "h": 0, "grp": "core", "name": "big sei", "b": bytes([6]) + bytes((0x21 + i * 7 % 200) for i in range(70000)) + b"\x80"}
    yield ("large", b"", [(S4, a), (S4, sei), (S3, b), (S4, sei), (S4, a)], b"")
    for mb in (1, 4, 17, 40) if thorough else (1, 4, 17):          # past every buffer size in use
        huge = dict(sei, name="%d MB unit" % mb, b=bytes([6]) + bytes((0x21 + i * 7 % 200) for i in range(1 << 16)) * (16 * mb) + b"\x80")
        for k in range(4): yield ("large", b"", [(S4, a)] + [(S4, huge)] * (k & 1) + [(S3, b)] + [(S4, huge)] * (k >> 1) + [(S4, a), (S4, core[7])], b"")


def model(pre, seq, suf):
    """The stream, its cut points, and whether every unit parses."""
    d = bytearray(pre); cuts = []; cur = None; ok = True
    for sc, u in seq:
        at = len(d); d += sc; payload = len(d)
        start = payload - 4 if payload >= 4 and d[payload - 4:payload] == b"\0\0\0\1" else payload - 3
        if u["grp"] == "bad": ok = False
        if u["type"] == 7 and u["w"]:
            r = (u["w"], u["h"])
            if cur is not None and r != cur: cuts.append(start)
            cur = r
        d += u["b"]
    d += suf
    return bytes(d), cuts, ok


def run_tool(data, d, name, debug=0, tool=None):
    global ERR
    p = os.path.join(d, name)
    if data is not None:
        with open(p, "wb") as f: f.write(data)
    argv, out, err, rc = sys.argv, sys.stdout, sys.stderr, 0
    sys.argv = ["h264nal-split.py", "-i", p, "--h264nal-path", TOOL if tool is None else tool] + ["-d"] * debug
    sys.stdout = B.Capture(); sys.stderr = B.Capture("backslashreplace")
    cwd = os.getcwd(); os.chdir(d)
    try:
        exec(CODE, {"__name__": "__main__", "__file__": "h264nal-split.py"})
    except SystemExit as e:
        rc = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    except BaseException as e:
        rc = "exception %r" % (e,)
    finally:
        ERR = sys.stderr.getvalue(); os.chdir(cwd); sys.argv, sys.stdout, sys.stderr = argv, out, err
    files = {}
    for f in sorted(os.listdir(d)):
        with open(os.path.join(d, f), "rb") as g: files[f] = g.read()
    for f in files: os.unlink(os.path.join(d, f))
    return rc, files


def check(data, cuts, ok, d, name, debug=0):
    rc, files = run_tool(data, d, name, debug)
    if files.pop(name, None) != data: return "the input file was changed"
    base, ext = os.path.splitext(name)
    if not ok:
        if rc == 0: return "exit status 0 for a stream that the parser does not accept"
        if files: return "files written for a stream that the parser does not accept: %s" % sorted(files)
        return None
    if rc != 0: return "exit status %s" % rc
    if not cuts: return "files %s written without a resolution change" % sorted(files) if files else None
    b = [0] + cuts + [len(data)]
    want = {"%s.%02d%s" % (base, i + 1, ext): data[b[i]:b[i + 1]] for i in range(len(b) - 1)}
    if sorted(files) != sorted(want): return "files %s instead of %s" % (sorted(files), sorted(want))
    for k in sorted(want):
        if files[k] != want[k]: return "%s holds %d bytes instead of the %d bytes from the cut at %d" % (k, len(files[k]), len(want[k]), b[int(k[len(base) + 1:len(k) - len(ext)]) - 1])
        if not any(l.split("/")[-1].strip().startswith(k) and "(%d bytes)" % len(want[k]) in l for l in ERR.split("\n")): return "%s (%d bytes) is not reported" % (k, len(want[k]))
    return None


def others(al, d):
    """no input, no tool: an error, and no files"""
    os.makedirs(d)
    data, cuts, ok = model(b"", [(b"\0\0\0\1", u) for u in al[:2]], b"")
    if not ok or not cuts: return "the model's stream is not split"
    for what, args in (("missing input", (None, "none.264", 0, None)), ("missing tool", (data, "in.264", 0, os.path.join(d, "nosuch"))), ("empty tool path", (data, "in.264", 0, ""))):
        rc, files = run_tool(args[0], d, *args[1:]); files.pop("in.264", None)
        if rc != 1 or files: return "%s: status %s, files %s" % (what, rc, sorted(files))
    return None


def shard(a):
    k, al, thorough, only = a
    d = os.path.join(ROOT, "s%d" % k); os.makedirs(d, exist_ok=True)
    names = ["in.264", "a.b.h264", "noext"]; n = acc = rej = 0; trans = 0; samples = []
    for i, (label, pre, seq, suf) in enumerate(cases(al, thorough)):
        if i % SHARDS != k or (only is not None and i != only): continue
        data, cuts, ok = model(pre, seq, suf); n += 1; trans += len(seq); acc += ok; rej += not ok
        msg = check(data, cuts, ok, d, names[i // SHARDS % 3], i // SHARDS // 3 % 3)
        if n in (3, 300): samples.append("%s: %s cuts=%s" % (label, ", ".join(u["name"] for _, u in seq[:6]), cuts))
        if msg: return {"n": n, "trans": trans, "acc": acc, "rej": rej, "samples": samples, "bad": {"case": i, "label": "%s: %s" % (label, ", ".join(u["name"] for _, u in seq[:20])), "data": data[:4000].hex(), "message": msg, "cuts": cuts}}
    return {"n": n, "trans": trans, "acc": acc, "rej": rej, "samples": samples, "bad": None}


def explore(scratch, tier, only=None):
    global CODE, TOOL, ROOT
    al = compile_gen(scratch)
    if al is None: return 3, {"error": "build failed"}, []
    src = os.path.join(B.REPO, "tools", "h264nal-split.py")
    try: CODE = compile(open(src).read(), src, "exec")
    except SyntaxError as e: return 3, {"error": "h264nal-split.py does not compile: %s" % e}, []
    TOOL = os.path.join(scratch, "h264nal"); ROOT = os.path.join(scratch, "work"); os.makedirs(ROOT)
    jobs = [(k, al, tier == "thorough", only) for k in range(SHARDS) if only is None or only >= 0 and only % SHARDS == k]
    rs = []
    if jobs:
      with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as p: rs = p.map(shard, jobs, chunksize=1)
    res = {"cases": sum(r["n"] for r in rs), "states": sum(r["n"] for r in rs), "transitions": sum(r["trans"] for r in rs), "accepted": sum(r["acc"] for r in rs), "rejected": sum(r["rej"] for r in rs),
           "samples": [s for r in rs for s in r["samples"]][:10], "rule": "each stream is written to a scratch directory, split by the real script driving the real tool, and all files are compared with the model's cut points",
           "bounds": "all sequences of up to %d units over 11 (sets of three sizes, with and without cropping and sample aspect ratio, other ids, subset set, PPS, SEI, AUD); up to %d sets with every mix of 3, 4 and 5 byte start codes; leading and trailing bytes; every baseline and one-deviation SPS between others; streams with unparsable units; 120 changes; units of 70 kB to %d MB; with 0, 1 and 2 debug options; without input and without the tool" % ((4, 4, 40) if tier == "thorough" else (3, 3, 17))}
    m = others(al, os.path.join(ROOT, "others")) if only is None or only < 0 else None
    bad = [{"case": -1, "label": "missing files", "message": m}] if m else []
    bad += sorted((r["bad"] for r in rs if r["bad"]), key=lambda x: x["case"])
    if bad: res["violation"] = bad[0]; print("FAILED: %s\n  %s" % (bad[0]["label"], bad[0]["message"]))
    return (1 if bad else 0), res, []


def run(prop, tier, scratch): return explore(scratch, tier)
def replay(v, scratch): return explore(scratch, v.get("tier", "quick"), v["case"])[0]
