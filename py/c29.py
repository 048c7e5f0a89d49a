"""C29: the summary tool, run on every enumerated stream; each row is compared with the model's."""
import csv, io, itertools, json, multiprocessing, os, re, shutil, signal, stat, subprocess, sys
import build as B
sys.path.append(os.path.join(B.REPO, "tools"))            # should the script come to use modules beside it

CODE = None; TOOL = None; ROOT = None; NSH = 16
FIELDS = ["input_dir", "input_file", "resolution", "profile", "level", "number_of_nalus", "number_of_slice_nalus", "number_of_slice_header_nalus", "h264nal_status", "slice_header_status"]
REASON = {1: "invalid bitstream", 2: "unimplemented syntax"}


def run_tool(args):
    argv, out, err, rc = sys.argv, sys.stdout, sys.stderr, 0
    sys.argv = ["h264nal-conformance.py"] + args; sys.stdout = B.Capture(); sys.stderr = B.Capture("backslashreplace")
    try: exec(CODE, {"__name__": "__main__", "__file__": os.path.join(B.REPO, "tools", "h264nal-conformance.py")})
    except SystemExit as e: rc = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    except Exception as e: rc = "exception %r" % (e,)
    finally: o, e = sys.stdout.getvalue(), sys.stderr.getvalue(); sys.argv, sys.stdout, sys.stderr = argv, out, err
    return rc, o, e


def expect(s, d, f):
    return {"input_dir": d, "input_file": f, "resolution": s["res"], "profile": s["prof"], "level": s["lev"], "number_of_nalus": str(s["nal"]), "number_of_slice_nalus": str(s["sl"]),
            "number_of_slice_header_nalus": str(s["hd"]), "slice_header_status": "0" if s["sl"] == s["hd"] else "unparsed slice headers: %d/%d" % (s["hd"], s["sl"])}


def rows_of(text):
    r = list(csv.reader(io.StringIO(text, newline="")))
    if not r or r[0] != FIELDS: return None
    return [dict(zip(FIELDS, x)) for x in r[1:] if len(x) == len(FIELDS)] if all(len(x) == len(FIELDS) for x in r) else None


def batch_check(d, streams, i):
    """streams: list of (stream, dir, file name); one call of the tool"""
    paths = []
    for s, sub, name in streams:
        p = os.path.join(d, sub); os.makedirs(p, exist_ok=True); p = os.path.join(p, name)
        with open(p, "wb") as f: f.write(bytes.fromhex(s["hex"]))
        paths.append(p)
    infiles = list(paths)
    if i % 3 == 1: infiles.insert(1, d)                  # a directory is passed over
    outf = os.path.join(d, "o.csv"); tofile = i % 2; quiet = i % 5 == 0
    rc, o, e = run_tool((["-o", outf] if tofile else []) + (["-q"] if quiet else []) + ["--h264nal", TOOL] + infiles)
    if tofile:
        if o: return "output on stdout although -o names a file"
        o = open(outf, newline="").read() if os.path.exists(outf) else ""
        if os.path.exists(outf): os.unlink(outf)
    if rc != 0: return "the tool ended with %s" % (rc,)
    rows = rows_of(o)
    if rows is None: return "not a table with the documented columns: %r" % o[:200]
    if len(rows) != len(streams): return "%d rows for %d files" % (len(rows), len(streams))
    fail = silent = 0
    for r, (s, sub, name) in zip(rows, streams):
        w = expect(s, sub, name)
        for k in w:
            if r[k] != w[k]: return "%s: %s is %r, expected %r" % (s["label"], k, r[k], w[k])
        st = r["h264nal_status"]
        if (st == "0") != (s["code"] == 0): return "%s: status %r although the parser's exit status is %d" % (s["label"], st, s["code"])
        if s["code"] and REASON[s["code"]] not in st: return "%s: status %r does not say '%s'" % (s["label"], st, REASON[s["code"]])
        fail += st != "0"; silent += st == "0" and r["slice_header_status"] != "0"
    if not quiet:
        m = re.search(r"parsed (\d+) file\(s\), (\d+) with issues, (\d+) ", e)
        if not m or [int(x) for x in m.groups()] != [len(streams), fail, silent]: return "closing line %r, expected %d, %d, %d" % (e.splitlines()[-1:], len(streams), fail, silent)
    return None


def shard(a):
    k, streams, only = a
    d = os.path.join(ROOT, "s%d" % k); os.makedirs(d, exist_ok=True); r = {"n": 0, "bad": None, "samples": [], "rej": 0}
    i = -1
    for at in range(0, len(streams), 7):
        i += 1
        if i % NSH != k or (only is not None and i != only): continue
        b = [(s, "dir%d" % (j % 3), "f%d.%s" % (j, ("264", "h264", "a,b")[j % 3])) for j, s in enumerate(streams[at:at + 7])]
        m = batch_check(d, b, i); r["n"] += len(b); r["rej"] += sum(1 for s, _, _ in b if s["code"])
        if r["n"] == 7: r["samples"].append({x: b[0][0][x] for x in ("label", "nal", "sl", "hd", "code", "res", "prof", "lev")})
        if m:
            for x in b:
                m1 = batch_check(d, [x], 2)
                if m1: r["bad"] = {"case": i, "label": x[0]["label"], "data": x[0]["hex"][:6000], "message": m1}; return r
            r["bad"] = {"case": i, "label": "files %s" % [x[0]["label"] for x in b], "data": "", "message": m}; return r
    return r


# a parser whose messages are its input, less the first line, which is its exit status
STAND_IN = """#!/bin/sh
f=/dev/stdin
while [ $# -gt 0 ]; do
  case "$1" in
    -i|--infile) f="$2"; shift ;;
    --infile=*) f="${1#*=}" ;;
    -i*) f="${1#-i}" ;;
  esac
  shift
done
{ read -r code; cat >&2; } < "$f"
exit $code
"""


def faults(d):
    """The parser cannot be run, crashes, fails or does not end: never reported as a clean file."""
    inp = os.path.join(d, "x.264"); open(inp, "wb").write(b"\0\0\1\x09\xf0")
    def fake(name, text, mode=0o755):
        p = os.path.join(d, name); open(p, "w").write(text); os.chmod(p, mode); return p
    line = 'echo "nal_unit { nal_unit_header { forbidden_zero_bit: 0 nal_ref_idc: 0 nal_unit_type: 9 } }"\n'
    cases = [("killed by a signal", fake("k", "#!/bin/sh\n%skill -SEGV $$\n" % line), []), ("exit status 3", fake("e3", "#!/bin/sh\n%sexit 3\n" % line), []), ("exit status 255", fake("e255", "#!/bin/sh\n%sexit 255\n" % line), []),
             ("message on stderr", fake("m", "#!/bin/sh\n%secho oops >&2\nexit 0\n" % line), []), ("does not end", fake("s", "#!/bin/sh\n%sexec sleep 30\n" % line), ["--timeout", "1"]), ("not a program", fake("n", "\x7fELF"), []), ("missing", os.path.join(d, "missing"), [])]
    for nm, p, extra in cases:
        for q in ([], ["-q"]):
            rc, o, e = run_tool(q + extra + ["--h264nal", p, inp]); rows = rows_of(o)
            if rows is not None and len(rows) == 1 and rows[0]["h264nal_status"] == "0": return "the parser %s: reported as clean" % nm
            if rc == 0 and (rows is None or len(rows) != 1): return "the parser %s: no row" % nm
    # what the parser reports is kept: every distinct message once, in the order of first appearance, with its count
    rep = fake("r", STAND_IN); lines = ["bad a", "bad: b", "", "  bad a "]; cs = []
    for n in range(4):
        for t in itertools.product(lines, repeat=n): cs.append((t, 0))
    for t in itertools.product(lines[:3], repeat=2): cs += [(t, 1), (t, 2), (t, 7)]
    long = ["x" * 10 + "long message " * k + e for k in (8, 20, 80, 400, 5000) for e in ("a", "b")]          # told apart by their ends
    for t in itertools.product(long, repeat=2): cs.append((t, 0))
    many = ["message %d" % k for k in range(300)]
    cs += [(tuple(many), 0), (tuple(many[::-1] + many), 1), (("bad a",) * 5000, 0), (tuple(many * 3 + ["bad a"]), 2), (("a" * 100000,), 0)]
    paths = []
    for i, (t, code) in enumerate(cs):
        p = os.path.join(d, "m%d.264" % i); open(p, "w").write("%d\n" % code + "".join(x + "\n" for x in t)); paths.append(p)
    rc, o, e = run_tool(["--h264nal", rep] + paths); rows = rows_of(o)
    if rc != 0 or rows is None or len(rows) != len(cs): return "reported messages: status %s, %r" % (rc, o[:200])
    fail = 0
    for r, (t, code) in zip(rows, cs):
        ms = [x.strip() for x in t if x.strip()]; u = list(dict.fromkeys(ms)); want = [m if ms.count(m) == 1 else "%s (x%d)" % (m, ms.count(m)) for m in u]
        got = r["h264nal_status"].split("; ")
        if code:
            if not (REASON[code] in got[0] if code in REASON else str(code) in got[0]): return "exit status %d: %r" % (code, r["h264nal_status"])
            got = got[1:]
        elif not want: want = ["0"]
        fail += r["h264nal_status"] != "0"
        if got != want: return "messages %r, exit status %d: status %r" % (t, code, r["h264nal_status"])
    m = re.search(r"parsed (\d+) file\(s\), (\d+) with issues, (\d+) ", e)
    if not m or [int(x) for x in m.groups()] != [len(cs), fail, 0]: return "closing line %r" % (e.splitlines()[-1:],)
    if any(os.path.basename(p) not in e for p in paths): return "no progress line for a file"
    # the same file several times: a row each time
    for twice in ([paths[1]] * 2, [paths[0], paths[1], paths[0], paths[1], paths[1]], paths[:9] + paths[:9][::-1]):
        rc, o2, e = run_tool(["--h264nal", rep] + twice); r2 = rows_of(o2); by = dict(zip(paths, rows)); m = re.search(r"parsed (\d+) file\(s\), (\d+) with issues, (\d+) ", e)
        if rc != 0 or r2 != [by[p] for p in twice]: return "a file named twice: %r" % o2[:300]
        if not m or [int(x) for x in m.groups()] != [len(twice), sum(by[p]["h264nal_status"] != "0" for p in twice), 0]: return "a file named twice: closing line %r" % (e.splitlines()[-1:],)
    rc, o2, e = run_tool(["-q", "--h264nal", rep] + paths)
    if o2 != o or e: return "the quiet run differs: %r" % e[:200]
    # files without units, and with broken ones: what the real parser reports is the status
    for data in (b"abc", b"\0", b"\0\0\1", b"\0\0\0\1", b"\xff" * 70000, b"\0" * 5000, b"\0\0\1\x67", b"\0\0\1\x14\x01", b"\0\0\1\x65\x88" * 40, b"\0\0\1\x67\x42\0\0\1\x68" * 9, b"\0\0\1\x0e\x80\0\7"):
        p = os.path.join(d, "n.264"); open(p, "wb").write(data); q = subprocess.run([TOOL, "-i", p, "--as-one-line", "--add-resolution"], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        ms = [x.strip() for x in q.stderr.decode("latin-1").splitlines() if x.strip()]; u = list(dict.fromkeys(ms)); want = [m if ms.count(m) == 1 else "%s (x%d)" % (m, ms.count(m)) for m in u]
        rc, o, e = run_tool(["-q", "--h264nal", TOOL, p]); rows = rows_of(o)
        if rc != 0 or rows is None or len(rows) != 1: return "%r: status %s, %r" % (data[:20], rc, o[:200])
        got = rows[0]["h264nal_status"]
        if q.returncode == 0 and got != ("; ".join(want) or "0") or q.returncode and (REASON.get(q.returncode, str(q.returncode)) not in got or any(m not in got for m in want)): return "%r: the parser ends with %d and reports %r, status %r" % (data[:20], q.returncode, ms[:3], got)
    rc, o, e = run_tool(["-q", "--h264nal", TOOL, os.path.join(d, "nosuch.264"), inp]); rows = rows_of(o)
    if rc == 0 and (rows is None or len(rows) != 2 or rows[0]["h264nal_status"] == "0" or rows[1]["h264nal_status"] != "0"): return "a file that does not exist: %r" % o
    return None


def names(d):
    """File names are bytes: whatever they are, each file gets its row, with its name."""
    sets = [b"sp ace.264", b"q\"uote.264", b"com,ma.264", b"two\nlines.264", b"-dash.264", b"caf\xc3\xa9.264", b"\xff.264", b"a\xfe\xc3.264", b"x"]
    script = os.path.join(B.REPO, "tools", "h264nal-conformance.py"); n = 0
    for content, status in ((b"\0\0\1\x09\xf0", b"0"), (b"", None)):       # a unit; an empty file, which the parser names in its message
        for group in [[x] for x in sets] + [sets]:
            w = os.path.join(d, "names"); shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
            for x in group: open(os.path.join(os.fsencode(w), x), "wb").write(content)
            for enc in ("utf-8:strict", "utf-8:surrogateescape"):
                for out in (None, "o.csv"):
                    n += 1
                    p = subprocess.run([sys.executable, script, "-q", "--h264nal", TOOL] + (["-o", out] if out else []) + ["--"] + group, cwd=w, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, PYTHONIOENCODING=enc, PYTHONDONTWRITEBYTECODE="1"))
                    text = open(os.path.join(w, out), "rb").read() if out and os.path.exists(os.path.join(w, out)) else p.stdout
                    if out and os.path.exists(os.path.join(w, out)): os.unlink(os.path.join(w, out))
                    lab = "files named %r (%s, %s)" % (group, "empty" if not content else "one unit", "to a file" if out else "to stdout")
                    rows = rows_of(text.decode("latin-1")) if p.returncode == 0 else None
                    if rows is None or len(rows) != len(group): return n, "%s: status %s, no table: %r" % (lab, p.returncode, p.stderr[-200:])
                    for r, x in zip(rows, group):
                        if r["input_file"].encode("latin-1") != x: return n, "%s: the row's file is %r" % (lab, r["input_file"])
                        if (r["h264nal_status"] == "0") != (status == b"0"): return n, "%s: status %r" % (lab, r["h264nal_status"])
    return n, None


def explore(scratch, tier, only=None):
    global CODE, TOOL, ROOT
    exe = B.harness("NONE", scratch, {"src": "gen_rows", "tools": [("h264nal", False)]})
    if exe is None: return 3, {"error": "build failed"}, []
    src = os.path.join(B.REPO, "tools", "h264nal-conformance.py")
    try: CODE = compile(open(src).read(), src, "exec")
    except SyntaxError as e: return 3, {"error": "h264nal-conformance.py does not compile: %s" % e}, []
    out = subprocess.run([exe] + (["thorough"] if tier == "thorough" else []), stdout=subprocess.PIPE, check=True, errors="replace").stdout
    streams = [json.loads(l) for l in out.splitlines()]
    TOOL = os.path.join(scratch, "h264nal"); ROOT = os.path.join(scratch, "work"); os.makedirs(ROOT); bad = []; rs = []
    if only is None or only == -1:
        m = faults(ROOT)
        if m: bad.append({"case": -1, "label": "failing parser", "message": m})
    nn = 0
    if only is None or only == -2:
        nn, m = names(ROOT)
        if m: bad.append({"case": -2, "label": "file names", "message": m})
    if only is None or only >= 0:
        jobs = [(k, streams, only) for k in range(NSH) if only is None or only % NSH == k]
        with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as p: rs = p.map(shard, jobs, chunksize=1)
    n = nn + sum(r["n"] for r in rs)
    res = {"cases": n, "states": len(streams), "transitions": sum(s["nal"] for s in streams), "accepted": n - sum(r["rej"] for r in rs), "rejected": sum(r["rej"] for r in rs), "samples": [s for r in rs for s in r["samples"]][:10],
           "rule": "every field of every row equals the value derived from the model's decoding of the stream; status is 0 exactly when every unit parses",
           "bounds": "all 1- and 2-unit streams over 39 units, every set x PPS x slice with repeats, 9 profiles x 64 constraint flag combinations, 256 profiles, 256 levels, baselines and cuts, one-deviation sets%s; seven ways the parser can fail, all sequences of up to 3 reported lines over 4, long and many lines, files named repeatedly; 9 unusual file names" % ("; all 3-unit streams" if tier == "thorough" else "")}
    bad += sorted((r["bad"] for r in rs if r["bad"]), key=lambda x: x["case"])
    if bad: res["violation"] = bad[0]; print("FAILED: %s\n  %s" % (bad[0]["label"], bad[0]["message"]))
    return (1 if bad else 0), res, []


def run(prop, tier, scratch): return explore(scratch, tier)
def replay(v, scratch): return explore(scratch, v.get("tier", "quick"), v["case"])[0]
