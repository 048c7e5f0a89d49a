"""C28: the decoded-picture-buffer simulator, run on streams that walk every transition of a reference-marking model.

The model (class Dpb) is written from ITU-T H.264 8.2.4.1, 8.2.4.2.1, 8.2.4.3 and 8.2.5 for frames. Its reachable states up
to a depth are enumerated with every legal marking command sequence, every short list modification and every slice type; tours
through these transitions are encoded as streams, given to the real script (which drives the real tool), and every output row is
compared with the model."""
import io, itertools, json, multiprocessing, os, signal, subprocess, sys
import build as B
sys.path.append(os.path.join(B.REPO, "tools"))            # should the script come to use modules beside it

CODE = None; TOOL = None; ROOT = None; NSH = 16


# ------------------------------------------------------------ bits
class W:
    def __init__(s): s.b = []
    def u(s, n, v): s.b += [(v >> (n - 1 - i)) & 1 for i in range(n)]; return s
    def ue(s, v):
        n = (v + 1).bit_length(); return s.u(2 * n - 1, v + 1)
    def se(s, v): return s.ue(2 * v - 1 if v > 0 else -2 * v)
    def done(s):
        s.b.append(1); s.b += [0] * (-len(s.b) % 8)
        raw = bytes(int("".join(map(str, s.b[i:i + 8])), 2) for i in range(0, len(s.b), 8))
        out = bytearray(); z = 0
        for x in raw:
            if z >= 2 and x <= 3: out.append(3); z = 0
            out.append(x); z = z + 1 if x == 0 else 0
        return bytes(out)


def var(cfg, k):
    """syntax around the elements the simulator reads; none of it may matter"""
    return cfg.get("var", 0) >> k & 1


def sps(cfg):
    w = W().u(8, 100 if var(cfg, 2) else 66).u(8, 0).u(8, 30).ue(cfg["sps_id"])
    if var(cfg, 2): w.ue(1).ue(0).ue(0).u(1, 0).u(1, 0)
    w.ue(cfg["log2"] - 4)
    if var(cfg, 0): w.ue(0).ue(2)
    elif var(cfg, 1): w.ue(1).u(1, 0).se(-3).se(2).ue(2).se(1).se(-1)
    else: w.ue(2)
    w.ue(cfg["nref"]).u(1, 0).ue(3).ue(3).u(1, 1).u(1, 1).u(1, 0)
    if var(cfg, 3):                                     # VUI with the reordering limits, which resemble the ones read
        w.u(1, 1).u(1, 0).u(1, 0).u(1, 0).u(1, 0).u(1, 0).u(1, 0).u(1, 0).u(1, 0).u(1, 1).u(1, 1).ue(1).ue(2).ue(9).ue(9).ue(0).ue(16)
    else: w.u(1, 0)
    return b"\x67" + w.done()


def pps(cfg, pid, l0):
    return b"\x68" + W().ue(pid).ue(cfg["sps_id"]).u(1, var(cfg, 2)).u(1, var(cfg, 1)).ue(0).ue(l0 - 1).ue(4).u(1, var(cfg, 4)).u(2, var(cfg, 4)).se(0).se(0).se(0).u(1, var(cfg, 0)).u(1, 0).u(1, var(cfg, 5)).done()


def slice_nal(cfg, f, first_mb=0, nact=1, red=0):
    """f: dict(idr, ltr, ref, st, fn, pps, over, rplm, mmco)"""
    w = W().ue(first_mb).ue(f["st"]).ue(f["pps"]).u(cfg["log2"], f["fn"])
    if f["idr"]: w.ue(f.get("idr_id", 0))
    if var(cfg, 0):
        w.u(6, f["fn"] & 63)
        if var(cfg, 1): w.se(1)
    elif var(cfg, 1): w.se(-1).se(2)
    if var(cfg, 5): w.ue(red)
    t = f["st"] % 5; n0 = f["over"] or dict(cfg["pps"])[f["pps"]]; n1 = 1 if f["over"] else 5
    if t == 1: w.u(1, 1)
    if t in (0, 1, 3):
        w.u(1, 1 if f["over"] else 0)
        if f["over"]:
            w.ue(f["over"] - 1)
            if t == 1: w.ue(0)
        w.u(1, 1 if f["rplm"] else 0)
        if f["rplm"]:
            for op, v in f["rplm"]: w.ue(op).ue(v)
            w.ue(3)
        if t == 1:
            w.u(1, var(cfg, 3))
            if var(cfg, 3): w.ue(0).ue(1).ue(2).ue(1).ue(3)
        if var(cfg, 4):
            w.ue(1).ue(2)
            for k in range(n0 + (n1 if t == 1 else 0)):
                w.u(1, k & 1)
                if k & 1: w.se(3).se(-2)
                w.u(1, 0)
    if f["ref"]:
        if f["idr"]: w.u(1, 0).u(1, f["ltr"])
        else:
            w.u(1, 1 if f["mmco"] else 0)
            if f["mmco"]:
                for op, *a in f["mmco"]:
                    w.ue(op)
                    for x in a: w.ue(x)
                w.ue(0)
    if var(cfg, 2) and t not in (2, 4): w.ue(1)
    w.se(0)
    if t == 3: w.u(1, 0)
    if t in (3, 4): w.se(0)
    if var(cfg, 0): w.ue(0).se(1).se(-1)
    w.u(8, 0x5a)
    return bytes([f["ref"] << 5 | (5 if f["idr"] else 1)]) + w.done()


def subset_sps(cfg):
    """a subset set for an enhancement layer, with the same id and other limits"""
    w = W().u(8, 83).u(8, 0).u(8, 30).ue(cfg["sps_id"]).ue(1).ue(0).ue(0).u(1, 0).u(1, 0).ue((cfg["log2"] - 3) % 12).ue(2).ue((cfg["nref"] + 3) % 16).u(1, 0).ue(7).ue(7).u(1, 1).u(1, 1).u(1, 0).u(1, 0)
    return b"\x6f" + w.u(1, 0).u(2, 0).u(1, 0).u(2, 0).u(1, 0).u(1, 1).u(1, 0).u(1, 0).done()


def svc_header(t, ref, idr): return bytes([ref << 5 | t]) + bytes(int("".join(map(str, W().u(1, 1).u(1, idr).u(6, 3).u(1, 1).u(3, 1 if t == 20 else 0).u(4, 0).u(3, 0).u(1, 0).u(1, 0).u(1, 1).u(2, 3).b[i:i + 8])), 2) for i in (0, 8, 16))
def prefix(f): return svc_header(14, f["ref"], f["idr"]) + (W().u(1, 0).u(1, 0).done() if f["ref"] else b"\x80")


def svc_slice(cfg, f):
    """the picture's slice of the enhancement layer: an I slice, with another frame number"""
    w = W().ue(0).ue(2).ue(f["pps"]).u((cfg["log2"] - 3) % 12 + 4, (f["fn"] + 1) % 16)
    if f["idr"]: w.ue(3)
    if var(cfg, 5): w.ue(0)
    w.se(0)
    if var(cfg, 0): w.ue(1)
    return svc_header(20, 0, f["idr"]) + w.u(8, 0x5a).done()


# ------------------------------------------------------------ model
class Dpb:
    """refs: list of [frame_num, long-term index or None], in decoding order"""
    def __init__(s, nref, mx): s.nref, s.mx = nref, mx; s.refs = []; s.maxlt = 0; s.prev = 0; s.started = False
    def copy(s):
        d = Dpb(s.nref, s.mx); d.refs = [list(r) for r in s.refs]; d.maxlt, d.prev, d.started = s.maxlt, s.prev, s.started; return d
    def key(s, cur): return (tuple(sorted(((cur - r[0]) % s.mx, r[1] is not None, -1 if r[1] is None else r[1], r[0] > cur) for r in s.refs)), s.maxlt)
    def next_fn(s): return s.prev                       # frame_num of the next non-IDR picture
    def picnum(s, r, cur): return r[0] - s.mx if r[0] > cur else r[0]
    def list0(s, cur):
        st = sorted((r for r in s.refs if r[1] is None), key=lambda r: -s.picnum(r, cur)); lt = sorted((r for r in s.refs if r[1] is not None), key=lambda r: r[1]); return st + lt
    def refs_used(s, f, defaults):
        n = f["over"] or defaults[f["pps"]]; cur = f["fn"]; l = s.list0(cur)[:n]; l += [None] * (n - len(l)); pred = cur; idx = 0
        for op, v in f["rplm"]:                         # 8.2.4.3
            if op in (0, 1):
                pred = (pred - (v + 1)) % s.mx if op == 0 else (pred + (v + 1)) % s.mx
                pic = [r for r in s.refs if r[1] is None and r[0] == pred]
            else: pic = [r for r in s.refs if r[1] == v]
            assert len(pic) == 1
            l = l[:idx] + [pic[0]] + [r for r in l[idx:] if r is not pic[0]]; idx += 1
            l = l[:n] + [None] * (n - len(l))
        return [tuple(r) for r in l if r is not None]
    def decode(s, f):
        """marks; returns False if the picture is not legal here"""
        if f["idr"]:
            s.refs = [[f["fn"], 0 if f["ltr"] else None]]; s.maxlt = 1 if f["ltr"] else 0; s.prev = 1 % s.mx; s.started = True; return True
        if not f["ref"]: return True
        cur = [f["fn"], None]
        if not f["mmco"]:                               # 8.2.5.3
            if len(s.refs) >= s.nref:
                st = [r for r in s.refs if r[1] is None]
                if not st: return False
                s.refs.remove(min(st, key=lambda r: s.picnum(r, f["fn"])))
        five = False
        for op, *a in f["mmco"]:
            if op in (1, 3):
                fn = (f["fn"] - (a[0] + 1)) % s.mx; t = [r for r in s.refs if r[1] is None and r[0] == fn]
                if not t or five: return False
                if op == 1: s.refs.remove(t[0])
                else:
                    if a[1] >= s.maxlt: return False
                    s.refs = [r for r in s.refs if r[1] != a[1]]; t[0][1] = a[1]
            elif op == 2:
                t = [r for r in s.refs if r[1] == a[0]]
                if not t: return False
                s.refs.remove(t[0])
            elif op == 4: s.maxlt = a[0]; s.refs = [r for r in s.refs if r[1] is None or r[1] < a[0]]
            elif op == 5: s.refs = []; s.maxlt = 0; five = True
            elif op == 6:
                if a[0] >= s.maxlt or cur[1] is not None: return False
                s.refs = [r for r in s.refs if r[1] != a[0]]; cur[1] = a[0]
        if five: cur[0] = 0
        s.refs.append(cur)
        if len(s.refs) > s.nref: return False
        s.prev = (cur[0] + 1) % s.mx
        return True


def mmco_cands(d, cur, maxops):
    """all marking command sequences that are legal at this state"""
    def ops(x):
        o = [(1, (cur - r[0]) % d.mx - 1) for r in x.refs if r[1] is None] + [(2, r[1]) for r in x.refs if r[1] is not None]
        o += [(3, (cur - r[0]) % d.mx - 1, k) for r in x.refs if r[1] is None for k in range(x.maxlt)]
        o += [(4, k) for k in range(d.nref + 1)] + [(5,)] + [(6, k) for k in range(x.maxlt)]
        return o
    def rec(seq, x, five, six):
        for op in ops(x):
            if op[0] == 4 and any(y[0] == 4 for y in seq): continue
            if op[0] == 5 and (five or any(y[0] in (1, 3) for y in seq)): continue
            if op[0] in (1, 3) and five: continue
            if six is not None and (op[0] in (5, 6) or (op[0] == 3 and op[2] == six) or (op[0] == 4 and op[1] <= six)): continue   # nothing takes the index from the current picture
            y = x.copy(); y.nref = 99
            if not y.decode({"idr": 0, "ref": 1, "fn": cur, "mmco": [op], "st": 0}): continue
            y.refs.pop()                               # without the current picture
            if op[0] == 6: y.nref = 99
            s2 = seq + [op]; out.append(s2)
            if len(s2) < maxops: rec(s2, y, five or op[0] == 5, op[1] if op[0] == 6 else six)
    out = []; rec([], d.copy(), False, None)
    good = []
    for q in out:
        y = d.copy()
        if y.decode({"idr": 0, "ref": 1, "fn": cur, "mmco": q, "st": 0}): good.append(q)
    return good


def rplm_cands(d, cur, n):
    one = lambda pred: [((0, (pred - r[0]) % d.mx - 1 if r[0] != pred else d.mx - 1), r[0]) for r in d.refs if r[1] is None] + [((1, (r[0] - pred) % d.mx - 1 if r[0] != pred else d.mx - 1), r[0]) for r in d.refs if r[1] is None] + [((2, r[1]), pred) for r in d.refs if r[1] is not None]
    out = []
    def rec(seq, pred):
        for op, p in one(pred):
            out.append(seq + [op])
            if len(seq) + 1 < n: rec(seq + [op], p)
    rec([], cur); return out


# ------------------------------------------------------------ exploration
def frame(**k): return dict({"idr": 0, "ltr": 0, "ref": 1, "st": 0, "fn": 0, "pps": 0, "over": 0, "rplm": [], "mmco": []}, **k)


def actions(d, cfg):
    cur = d.next_fn(); out = []
    for st in (0, 5, 2, 7, 3, 4, 8, 9, 1, 6):
        for ref in (0, 1, 3):
            if st in (0, 5) or ref != 3: out.append(frame(st=st, ref=ref, pps=st & 1))
    for q in mmco_cands(d, cur, cfg["ops"]): out.append(frame(mmco=q, st=(0, 5, 7, 3, 1)[len(out) % 5], ref=1 + len(out) % 3, over=len(out) % 4, pps=len(out) % 2))
    if d.refs:
        mods = rplm_cands(d, cur, cfg["mods"])
        for k, q in enumerate(mmco_cands(d, cur, cfg["ops"])): out.append(frame(mmco=q, rplm=mods[k % len(mods)], st=(0, 8, 5)[k % 3], ref=1 + k % 2, over=k % 4, pps=k % 2))
        for q in mods: out.append(frame(rplm=q, ref=0, st=(0, 5, 8)[len(out) % 3], over=1 + len(out) % (len(d.refs) + 1), pps=len(out) % 2))
    ok = []
    for f in out:
        f["fn"] = cur; y = d.copy()
        if y.decode(f): ok.append((f, y))
    return ok


def tours(cfg):
    """Breadth-first states up to cfg depth; yields histories (lists of frames) that together take every transition."""
    roots = []
    for ltr in (0, 1):
        d = Dpb(cfg["nref"], 1 << cfg["log2"]); f = frame(idr=1, ltr=ltr, st=7 if ltr else 2); d.decode(f); roots.append(([f], d))
        d2 = d.copy(); h = [f]
        if cfg["nref"] > ltr and cfg["log2"] < 7:
            for i in range((1 << cfg["log2"]) - 3): g = frame(fn=d2.next_fn(), st=(0, 5)[i % 2]); d2.decode(g); h.append(g)
            roots.append((h, d2))
    seen = set(); todo = []; ntr = 0
    for i, (h, d) in enumerate(roots): todo.append((h, d, 0)); seen.add((d.key(d.next_fn()), i > 1))
    while todo:
        nxt = []
        for h, d, depth in todo:
            acts = actions(d, cfg); loops = [f for f, y in acts if not f["ref"]]; ntr += len(loops)
            for i in range(0, len(loops), 60): yield h + loops[i:i + 60]      # non-reference pictures leave the state alone
            for f, y in acts:
                if not f["ref"]: continue
                ntr += 1; last = h + [f]; k = (y.key(y.next_fn()), any(r[0] > y.next_fn() for r in y.refs))
                if k not in seen and depth + 1 < cfg["depth"]: seen.add(k); nxt.append((last, y, depth + 1))
                # two plain pictures show what the marking left behind
                tail = []; z = y.copy()
                for st in (5, 0):
                    g = frame(fn=z.next_fn(), st=st, over=3); q = z.copy()
                    if not q.decode(g): break
                    tail.append(g); z = q
                yield last + tail
        todo = nxt
    STATS[cfg["name"]] = (len(seen), ntr)


STATS = {}


def wide(cfg):
    """Full buffers of up to 16 pictures: long command sequences, every index, list modifications of every length."""
    nref, mx = cfg["nref"], 1 << cfg["log2"]; n = 0
    def ext(h, d, **k):
        g = frame(fn=d.next_fn(), **k); y = d.copy()
        if any(r[1] is None and r[0] == g["fn"] for r in d.refs): return None, None       # two short-term pictures of one number: not in a conforming stream
        return (h + [g], y) if y.decode(g) else (None, None)
    def tail(h, d):
        for st in (5, 0):
            h2, d2 = ext(h, d, st=st, over=16)
            if h2 is None: break
            h, d = h2, d2
        return h
    for shift in (0, mx - nref // 2 - 2):
        d = Dpb(nref, mx); f = frame(idr=1, st=2); d.decode(f); h = [f]
        for i in range(nref - 1 + shift): h, d = ext(h, d, st=(0, 5)[i % 2])
        cur = d.next_fn(); short = sorted(d.refs, key=lambda r: d.picnum(r, cur)); diff = lambda r: (cur - r[0]) % mx - 1
        def mods(seq, pred):
            out = []
            for r in seq:
                if r[1] is not None: out.append((2, r[1])); continue
                down = (pred - r[0]) % mx or mx; up = (r[0] - pred) % mx or mx
                out.append((0, down - 1) if (len(out) + nref) % 2 or up == mx else (1, up - 1)); pred = r[0]
            return out
        def looks(h, d):
            """pictures that only look at the lists"""
            c = d.next_fn(); o = sorted(d.refs, key=lambda r: (r[1] is not None, d.picnum(r, c) if r[1] is None else -r[1])); l = []
            for k in range(1, 17): l.append(frame(fn=c, ref=0, over=k, st=(0, 5, 3, 8)[k % 4]))
            for k in range(1, len(o) + 1):
                for q in (o[:k], o[::-1][:k], (o[::2] + o[1::2])[:k], [o[k - 1]] * 3): l.append(frame(fn=c, ref=0, over=max(1, min(16, k + k % 3 - 1)), rplm=mods(q, c), st=(0, 5)[k % 2]))
            return h + l
        yield looks(h, d); n += 16 + 4 * nref
        seqs = [[(1, diff(r)) for r in q[:m]] for q in (short, short[::-1], short[::2] + short[1::2]) for m in range(1, nref + 1)]
        for j, r in enumerate(short):
            free = short[j - 1]
            for k in range(nref): seqs.append([(4, nref), (3, diff(r), k), (1, diff(free))]); seqs.append([(1, diff(free)), (4, k + 1), (3, diff(r), k), (6, 0 if k else nref - 1)])
        lng = [[(4, nref)] + [(3, diff(r), i) for i, r in enumerate(q[:m])] + [(1, diff(q[-1]))] for q in (short, short[::-1]) for m in range(1, nref)]
        lng += [[(4, nref)] + [(3, diff(r), nref - 1 - i) for i, r in enumerate(q[:m])] + [(1, diff(q[-1]))] for q in (short, short[::-1]) for m in range(1, nref)]
        for q in seqs + lng:
            h2, d2 = ext(h, d, mmco=q, st=(0, 5, 2)[len(q) % 3], ref=1 + len(q) % 3)
            if h2 is None: continue
            n += 1; yield tail(h2, d2)
        for q in lng[nref - 2::nref - 1]:                 # all but one are long-term: look, then every operation on them
            h2, d2 = ext(h, d, mmco=q, st=0)
            yield looks(h2, d2)
            c2 = d2.next_fn(); last = [r for r in d2.refs if r[1] is None]
            for k in range(nref + 1):
                for op in ([(4, k)], [(2, k)], [(2, k), (6, k)], [(1, (c2 - last[0][0]) % mx - 1), (6, k)], [(2, k), (3, (c2 - last[0][0]) % mx - 1, k)], [(2, j) for j in range(k)]):
                    if not op: continue
                    for q2 in (op, op + [(1, (c2 - last[0][0]) % mx - 1)]):
                        h3, d3 = ext(h2, d2, mmco=q2, st=(5, 0)[k % 2])
                        if h3 is not None: n += 1; yield tail(h3, d3)
    STATS[cfg["name"]] = (8, n)


def entry(r): return "fn=%d/%s" % (r[0], "STR" if r[1] is None else "LTR[%d]" % r[1])


def mmco_text(f, mx):
    """list of accepted (operation, operand) renderings"""
    if f["idr"]: return ["IDR:LTR[0]" if f["ltr"] else "IDR:STR"]
    if not f["mmco"]: return ["sliding_window"] if f["ref"] else [""]
    o = []
    for op, *a in f["mmco"]:
        fn = (f["fn"] - (a[0] + 1)) % mx if op in (1, 3) else 0
        o.append({1: lambda: ("MMCO1:rm_STR(fn=", fn, ")"), 2: lambda: ("MMCO2:rm_LTR",), 3: lambda: ("MMCO3:STR(fn=", fn, ")->LTR[%d]" % a[1]), 4: lambda: ("MMCO4:max_ltr_idx=%d" % (a[0] - 1),), 5: lambda: ("MMCO5:clear_all",), 6: lambda: ("MMCO6:self->LTR[%d]" % a[0],)}[op]())
    return o


def mmco_same(got, want, mx):
    g = got.split(";")
    if len(g) != len(want): return False
    for x, y in zip(g, want):
        if isinstance(y, str):
            if x != y: return False
        elif len(y) == 1:
            if not x.startswith(y[0]): return False     # operands may be appended
        else:
            if not (x.startswith(y[0]) and x.endswith(y[2])): return False
            try: v = int(x[len(y[0]):len(x) - len(y[2])])
            except ValueError: return False
            if v % mx != y[1]: return False
    return True


TYPES = ("P", "B", "I", "SP", "SI")


def encode(cfg, hist, multi):
    svc = multi % 3 == 1                                # with an enhancement layer, which is not part of the base view
    d = [b"\x09\xf0", sps(cfg)] + ([subset_sps(cfg)] if svc else []) + [pps(cfg, i, n) for i, n in cfg["pps"]]
    for k, f in enumerate(hist):
        if svc and k % 2 == 0: d.append(prefix(f))
        d.append(slice_nal(cfg, f))
        if svc and k % 3 == 0: d.append(svc_slice(cfg, f))
        if (k + multi) % 3 == 0: d.append(slice_nal(cfg, f, 7))
        if var(cfg, 5) and (k + multi) % 4 == 0: d.append(slice_nal(cfg, f, 0, red=(1, 9, 2, 10, 127, 16, 100, 64, 3)[k % 9]))   # a redundant coded picture
        if (k + multi) % 7 == 0: d.append(b"\x06\x05\x01\x2a\x80")
        if (k + multi) % 11 == 0: d += [pps(cfg, i, n) for i, n in cfg["pps"]]
    return b"".join((b"\0\0\0\1" if i % 2 else b"\0\0\1") + x for i, x in enumerate(d))


class Hang(BaseException): pass


def run_tool(data, d, to_file):
    p = os.path.join(d, "in.264"); o = os.path.join(d, "out.csv")
    if data is not None:
        with open(p, "wb") as f: f.write(data)
    argv, out, err, rc = sys.argv, sys.stdout, sys.stderr, 0
    sys.argv = ["h264nal-dpb_parse.py", "-i", p, "--h264nal-path", TOOL] + (["-o", o] if to_file else [])
    sys.stdout = B.Capture(); sys.stderr = B.Capture("backslashreplace")
    def hang(*a): raise Hang()
    old = signal.signal(signal.SIGALRM, hang); signal.setitimer(signal.ITIMER_REAL, 60)
    try: exec(CODE, {"__name__": "__main__", "__file__": "h264nal-dpb_parse.py"})
    except SystemExit as e: rc = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    except Hang: rc = "hang"
    except BaseException as e: rc = "exception %r" % (e,)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0); signal.signal(signal.SIGALRM, old)
        text = sys.stdout.getvalue(); sys.argv, sys.stdout, sys.stderr = argv, out, err
    if to_file:
        text = open(o).read() if os.path.exists(o) else ""
        if os.path.exists(o): os.unlink(o)
    if data is not None: os.unlink(p)
    return rc, text


HEAD = "abs_frame,gop,gop_frame,type,frame_num,nal_ref_idc,ref,refs_used,dpb_before_decode,mmco,dpb_after_mmco"


def compare(cfg, hist, rc, text):
    if rc != 0: return 0, "the tool ended with %s" % rc
    rows = text.split("\n")
    if rows[0] != HEAD or rows[-1] != "": return 0, "header or end of the listing: %r" % rows[0]
    rows = rows[1:-1]; d = Dpb(cfg["nref"], 1 << cfg["log2"]); gop = gf = 0; dflt = dict(cfg["pps"])
    for k, f in enumerate(hist):
        if k >= len(rows): return k, "no row for picture %d" % k
        c = rows[k].split(",")
        if len(c) != 11: return k, "row %r" % rows[k]
        if f["idr"]: d.refs = []; gop += 1 if k else 0; gf = 0
        before = sorted(entry(r) for r in d.refs); t = f["st"] % 5
        want = [str(k), str(gop), str(gf), "IDR" if f["idr"] else TYPES[t], str(f["fn"]), str(f["ref"]), "Y" if f["ref"] else "N"]
        if c[:7] != want: return k, "row begins %s, expected %s" % (",".join(c[:7]), ",".join(want))
        used = d.refs_used(f, dflt) if t in (0, 3) and not f["idr"] else []
        if t != 1 and c[7] != ";".join(entry(r) for r in used): return k, "references used %r, expected %r" % (c[7], ";".join(entry(r) for r in used))
        if sorted(x for x in c[8].split(";") if x) != before: return k, "buffer before the picture %r, expected %r" % (c[8], ";".join(before))
        if not mmco_same(c[9], mmco_text(f, d.mx), d.mx): return k, "marking %r, expected %s" % (c[9], mmco_text(f, d.mx))
        if not d.decode(f): raise RuntimeError("illegal history")
        after = sorted(entry(r) for r in d.refs)
        if sorted(x for x in c[10].split(";") if x) != after: return k, "buffer after the picture %r, expected %r" % (c[10], ";".join(after))
        gf += 1
    if len(rows) != len(hist): return len(hist), "%d rows for %d pictures" % (len(rows), len(hist))
    return None


def configs(thorough):
    # (reference frames, log2 of the frame number range, depth, marking commands per picture, list modifications per picture)
    q = [(1, 4, 6, 4, 4), (2, 4, 5, 3, 3), (3, 4, 3, 2, 2), (4, 4, 2, 2, 2), (2, 9, 2, 2, 2), (2, 16, 2, 1, 2)]
    if thorough: q = [(1, 4, 6, 5, 4), (1, 5, 6, 4, 3), (2, 4, 6, 4, 4), (2, 5, 6, 2, 3), (3, 4, 2, 3, 2), (3, 4, 3, 2, 3), (3, 4, 5, 1, 2), (4, 4, 2, 2, 3), (4, 4, 3, 1, 2), (5, 4, 2, 2, 2), (2, 9, 3, 2, 2), (2, 16, 2, 1, 2)]
    for nref, log2, depth, ops, mods in q:
        yield {"name": "nref=%d log2=%d depth=%d ops=%d mods=%d" % (nref, log2, depth, ops, mods), "nref": nref, "log2": log2, "sps_id": nref - 1, "pps": [(0, 1 + (nref > 1)), (1, 3)], "depth": depth, "ops": ops, "mods": mods}
    for nref, log2 in [(5, 4), (8, 4), (15, 4), (16, 5), (16, 10)][:5 if thorough else 4]:
        yield {"name": "full buffers nref=%d log2=%d" % (nref, log2), "nref": nref, "log2": log2, "sps_id": 31, "pps": [(0, 16), (1, 3)], "wide": 1}


def batches(thorough):
    for cfg in configs(thorough):
        cur = []; n = 0
        for h in (wide if cfg.get("wide") else tours)(cfg):
            cur.append(h); n += len(h)
            if n > 1500: yield cfg, cur; cur, n = [], 0
        if cur: yield cfg, cur


def shard(a):
    k, thorough, only = a
    d = os.path.join(ROOT, "s%d" % k); os.makedirs(d, exist_ok=True); r = {"n": 0, "trans": 0, "bad": None, "samples": []}
    for i, (cfg, hs) in enumerate(batches(thorough)):
        if i % NSH != k or (only is not None and i != only): continue
        cfg = dict(cfg, var=(i * 37 + i // 64) % 64); hist = [dict(f, idr_id=j & 1) if f["idr"] else f for j, h in enumerate(hs) for f in h]; data = encode(cfg, hist, i)
        rc, text = run_tool(data, d, i % 2); m = compare(cfg, hist, rc, text); r["n"] += len(hs); r["trans"] += len(hist)
        if len(r["samples"]) < 1: r["samples"].append("%s: %d histories, %d pictures" % (cfg["name"], len(hs), len(hist)))
        if m:
            # reduce to the history concerned
            at = m[0]; p = 0; msg = "picture %d: %s" % m; small = hist
            for h in hs:
                if p + len(h) > at:
                    rc2, t2 = run_tool(encode(cfg, h, i), d, 0); m2 = compare(cfg, h, rc2, t2)
                    if m2: small = h; msg = "picture %d: %s" % m2
                    break
                p += len(h)
            show = [{x: f[x] for x in f if f[x]} for f in small[:60]]
            r["bad"] = {"case": i, "label": "%s syntax variant %d" % (cfg["name"], cfg["var"]), "history": show, "data": encode(cfg, small, i)[:6000].hex(), "message": msg}; return r
    r["stats"] = dict(STATS); return r


def others(d):
    """Streams the parser does not accept: an error, and no listing."""
    cfg = {"sps_id": 0, "log2": 4, "nref": 2, "pps": [(0, 1)]}; good = encode(cfg, [frame(idr=1, st=2), frame(fn=1)], 1)
    for nm, data in (("cut slice", good + b"\0\0\1\x21\x88"), ("unreadable unit", good + b"\0\0\1\x14\x01\x02"), ("bad set", b"\0\0\1\x67\x42\0" + good), ("no sets", b"\0\0\1" + slice_nal(cfg, frame(idr=1, st=2)))):
        for tf in (0, 1):
            rc, text = run_tool(data, d, tf)
            if rc == "hang" or rc == 0: return "%s: status %s" % (nm, rc)
            if text.count("\n") > 0: return "%s: a listing is written" % nm
    global TOOL
    keep = TOOL
    for nm in ("nosuch", ""):
        TOOL = nm and os.path.join(d, nm)
        try: rc, text = run_tool(good, d, 0)
        finally: TOOL = keep
        if rc != 1 or text: return "without the tool: status %s" % rc
    rc, text = run_tool(None, d, 0)
    if rc != 1 or text: return "without an input file: status %s" % rc
    # not conforming, but accepted: the tool has to come to an end
    for nref in (0, 1):
        cfg["nref"] = nref
        for h in ([frame(idr=1, ltr=1, st=2), frame(fn=1), frame(fn=2)], [frame(idr=1, st=2), frame(fn=1, mmco=[(4, 3), (6, 2)]), frame(fn=2, mmco=[(6, 1)]), frame(fn=3), frame(fn=4, st=2)], [frame(fn=3), frame(fn=4)]):
            rc, text = run_tool(encode(cfg, h, 1), d, 0)
            if rc != 0: return "a stream with too many reference pictures (limit %d): %s" % (nref, rc)
    return None


def explore(scratch, tier, only=None):
    global CODE, TOOL, ROOT
    exe = B.tool(os.path.join(scratch, "lib"))
    if exe is None: return 3, {"error": "build failed"}, []
    src = os.path.join(B.REPO, "tools", "h264nal-dpb_parse.py")
    try: CODE = compile(open(src).read(), src, "exec")
    except SyntaxError as e: return 3, {"error": "h264nal-dpb_parse.py does not compile: %s" % e}, []
    TOOL = exe; ROOT = os.path.join(scratch, "work"); os.makedirs(ROOT)
    jobs = [(k, tier == "thorough", only) for k in range(NSH) if only is None or only < 0 or only % NSH == k]
    bad = []; rs = []
    if only is None or only < 0:
        m = others(ROOT)
        if m: bad.append({"case": -1, "label": "unacceptable or non-conforming streams", "message": m})
    if only is None or only >= 0:
        with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as p: rs = p.map(shard, jobs, chunksize=1)
    st = (rs[0].get("stats") or {}) if rs else {}
    res = {"cases": sum(r["n"] for r in rs), "states": sum(v[0] for v in st.values()), "transitions": sum(r["trans"] for r in rs), "accepted": sum(r["n"] for r in rs), "rejected": 8,
           "samples": [s for r in rs for s in r["samples"]][:10], "rule": "every row of the listing (picture type, numbers, references used by P and SP pictures, buffer before and after, marking) equals the model's",
           "bounds": "per configuration (states, transitions of the model): %s" % st}
    bad += sorted((r["bad"] for r in rs if r["bad"]), key=lambda x: x["case"])
    if bad: res["violation"] = bad[0]; print("FAILED: %s\n  %s" % (bad[0]["label"], bad[0]["message"]))
    return (1 if bad else 0), res, []


def run(prop, tier, scratch): return explore(scratch, tier)
def replay(v, scratch): return explore(scratch, v.get("tier", "quick"), v["case"])[0]
