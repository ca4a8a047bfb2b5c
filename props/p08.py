"""P08: what a checkpoint holds is written losslessly and read back to where it came from."""
import re
from sgv import ir
from sgv.val import *
from sgv.cfg import *
from sgv.guards import guards
from sgv.sx import Sx, base, mentions
from sgv.report import Check
from .p12 import CONV

RULE = ("The checkpoint writer and reader are each lowered to one function by inlining. The labels, conversions and data blocks the writer emits and the "
        "labels and blocks the reader asks for are extracted in program order: same labels in the same order, conversions that keep every digit, "
        "parsing of the same kind, the parsed value stored to the field that was written, data blocks with the number of points announced "
        "in front of them and for the variable and box named there, and counters that run over all boxes, parameters and variables.")

DATAW = {"fwrite_double_little": (0, 1, 8, 2), "fwrite": (0, 2, None, 3)}
DATAR = {"fread_double_little": (0, 1, 8, 2), "fread": (0, 2, None, 3)}
INTP = {"atoi", "atol", "strtol", "__isoc23_strtol"}
FLTP = {"atof", "strtod", "__isoc23_strtod"}


def pick(s):
    return "/utility/checkpoint/" in s and not s.endswith("wolfio.c")


def keep(n):
    return False


def load():
    return ir.load_linked("main", pick, ["checkpoint_write", "checkpoint_read"], keep)


def order(cg):
    for b in cg.rpo:
        if b in cg.live:
            for I in cg.f.blocks[b].instrs:
                yield I


def name(I):
    return base(I.callee[1:]) if I.op == "call" and is_glob(I.callee) else None


def run(tier):
    c = Check("P08", tier, RULE)
    P = load()
    fw, fr = P.funcs.get("checkpoint_write"), P.funcs.get("checkpoint_read")
    c.require(fw is not None and fr is not None, "the checkpoint writer and reader")
    W = writer(c, P, fw)
    R = reader(c, P, fr)
    match(c, W, R)
    c.floor("labels matched", 5)
    c.floor("data blocks written", 1)
    c.floor("data blocks read", 1)
    return c


def fmtpieces(fmt):
    """[(label before the conversion, conversion text, kind, precision)]"""
    out = []; k = 0
    for m in CONV.finditer(fmt):
        if m.group(1):
            continue
        pre = fmt[k:m.start()]
        k = m.end()
        l = re.search(r"([^\s=:,]+)\s*=\s*$", pre)
        out.append((l.group(1) if l else None, m.group(0), m.group(6), m.group(4)))
    return out


def writer(c, P, f):
    S = Sx(P, f); cg = S.cg
    fps = set()
    for I in order(cg):
        if name(I) in ("fopen", "fdopen") and str(P.string(f, I.ops[1]) or "").startswith(("w", "a")):
            fps.add(I.name)
    isfp = lambda o: is_local(o) and (strip(f, o) in fps or str(S(o)) in {str(S(x)) for x in fps})
    W = {"S": S, "labels": [], "blocks": [], "pairs": [], "words": []}
    pend = {}
    seq = []
    for I in order(cg):
        n = name(I)
        if n == "fprintf" and isfp(I.ops[0]):
            fmt = P.string(f, I.ops[1])
            if fmt is None:
                c.count("prints of unknown text"); continue
            W["words"] += re.findall(r"\$(?:BEGIN|END)_\w+:?", fmt)
            ps = fmtpieces(fmt)
            for q, ((lab, txt, kind, prec), a) in enumerate(zip(ps, I.ops[2:])):
                W["labels"].append((lab, txt, kind, prec, S(a), a, I, q))
            seq.append(I)
        elif n in DATAW:
            p, k, sz, fpi = DATAW[n]
            if isfp(I.ops[fpi]):
                W["blocks"].append(I); seq.append(I)
    # ---- conversions keep every digit
    for lab, txt, kind, prec, e, a, I, _q in W["labels"]:
        if kind in "fFeEgG" and lab:
            p = int(prec) if prec is not None and prec.isdigit() else 6
            ok = p >= 17 if kind in "gG" else p >= 16 if kind in "eE" else False
            c.count("floating point values written")
            if not ok:
                c.violation("digits|%s" % lab, where(I, f), "%s is written with %s, which does not keep all digits of a double" % (lab, txt))
    # ---- data blocks
    for I in W["blocks"]:
        c.count("data blocks written")
        p, k, sz, _ = DATAW[name(I)]
        e = S(I.ops[p]); cnt = S.lin(I.ops[k])
        announced = [(lab, S.lin(a), ee) for lab, txt, kind, prec, ee, a, J, _q in W["labels"] if lab and "nnodes" in lab and J.blk == I.blk or
                     (lab and "nnodes" in lab and cg.idominates(J, I))]
        if announced:
            l = announced[-1]
            if cnt != l[1]:
                c.violation("count-written|%s" % where(I, f), where(I, f), "the block written here has a different number of values than announced as %s" % l[0])
        vb = [ee for lab, txt, kind, prec, ee, a, J, _q in W["labels"] if lab == "box" and cg.idominates(J, I)]
        vn = [ee for lab, txt, kind, prec, ee, a, J, _q in W["labels"] if lab == "$variable" and cg.idominates(J, I)]
        # e = ld(idx(ld(fld(BOX,'v')), i)), BOX = ld(idx(ld(fld(G,'box')), b))
        m = isvbi(e)
        if m is None:
            c.count("blocks whose address is not a variable of a box")
            continue
        bx, i = m
        if vb and str(vb[-1]) != str(boxno(bx)):
            if boxno(bx) is not None:
                c.violation("box-written", where(I, f), "data of another box is written than the one announced")
        if vn and vn[-1][:2] == ("call", "VarName") and str(vn[-1][2]) != str(i):
            c.violation("var-written", where(I, f), "data of another variable is written than the one announced")
        # the counters have to cover everything
        for cnts, what in ((boxno(bx), "boxes"), (i, "variables")):
            x = cnts
            if isinstance(x, tuple) and x[0] == "ld" and isinstance(x[1], tuple) and x[1][0] == "idx":
                x = x[1][2]        # an entry of a list
            if isinstance(x, tuple) and x[0] == "iv":
                cover(c, S, x[1], I, what)
        guarded(c, P, S, I, bx, i)
    # ---- parameter records
    prev = None
    for lab, txt, kind, prec, e, a, I, _q in W["labels"]:
        if isinstance(e, tuple) and e[:1] == ("call",) and e[1] in ("GetnameInd", "GetsInd"):
            x = e[2]
            if e[1] == "GetsInd" and prev is not None:
                c.count("parameter records")
                if str(prev) != str(x):
                    c.violation("par-pair", where(I, f), "the value written is not that of the parameter named")
            prev = x if e[1] == "GetnameInd" else None
            if isinstance(x, tuple) and x[0] == "iv":
                cover(c, S, x[1], I, "parameters")
    return W


def before(cg, A, p, B, q):
    """every run that meets both meets A first"""
    if A is B:
        return p < q
    if A.blk == B.blk and cg.loop_of(A.blk) is None:
        return A.idx < B.idx
    ra = A.blk in cg.reachable_from(B.blk); rb = B.blk in cg.reachable_from(A.blk)
    if rb and not ra:
        return True
    if A.blk == B.blk:
        return A.idx < B.idx
    return rb and ra and cg.idominates(A, B) and not cg.idominates(B, A)


def isvbi(e):
    if isinstance(e, tuple) and e[0] == "ld" and isinstance(e[1], tuple) and e[1][0] == "idx":
        b = e[1][1]
        if isinstance(b, tuple) and b[0] == "ld" and isinstance(b[1], tuple) and b[1][0] == "fld" and b[1][2] == "v":
            return b[1][1], e[1][2]
    return None


def boxno(bx):
    if isinstance(bx, tuple) and bx[0] == "ld" and isinstance(bx[1], tuple) and bx[1][0] == "idx":
        return bx[1][2]
    return None


def cover(c, S, iv, I, what):
    sp = S.span(iv)
    c.count("counters judged")
    if sp is None:
        return
    lo, hi = sp
    if lo != Lin():
        c.violation("first-%s" % what, where(I, S.f), "the counter over %s starts at %s instead of 0" % (what, show(lo)))
    if len(hi) != 1 or () in hi or list(hi.values()) != [1]:
        c.violation("last-%s" % what, where(I, S.f), "the counter over %s does not run up to their number but up to %s" % (what, show(hi)))
    want = {"boxes": ["nboxes"], "variables": ["nvariables", "'n'"], "parameters": ["npdb", "GetnParameters", "npar"]}[what]
    if len(hi) == 1 and () not in hi:
        t = str(list(hi)[0])
        if "fld" in t and not any(w in t for w in want):
            c.violation("bound-%s" % what, where(I, S.f), "the counter over %s is bounded by %s" % (what, t[:80]))


def show(l):
    def nm(k):
        w = re.findall(r"'(\w+)'\)+", str(k))
        return w[-1] if w else str(k)[:60]
    return " + ".join((str(v) if not k else (nm(k) if v == 1 else "%s*%s" % (v, nm(k)))) for k, v in l.items()) or "0"


def guarded(c, P, S, I, bx, i):
    """only missing memory may keep a variable from being written"""
    ivs = [x for x in (boxno(bx), i) if isinstance(x, tuple)]
    ctr = set()

    def coll(e):
        if isinstance(e, tuple):
            if e[0] == "iv":
                ctr.add(e)
            for y in e[1:]:
                coll(y)
    for x in ivs:
        coll(x)
    for t, pol in guards(S.cg, I.blk):
        d = S.f.defs.get(t.ops[0]) if is_local(t.ops[0]) else None
        if d is None or d.op != "icmp":
            continue
        a, b = S(d.ops[0]), S(d.ops[1])
        if isvbi(a) is not None and b == "null":
            if (d.x == "ne") != pol:
                c.violation("guard-null", where(I, S.f), "variables are written only where they have no memory")
            continue
        # loop exits
        if any(t.blk in S.cg.loops[h] and I.blk in S.cg.loops[h] and any(x not in S.cg.loops[h] for x in S.cg.succ[t.blk]) for h in S.cg.loops):
            continue
        if any(mentions(a, lambda e: e == x or e in ctr) or mentions(b, lambda e: e == x or e in ctr) for x in ivs):
            c.violation("guard|%s" % where(t, S.f), where(t, S.f), "some of the variables or boxes are left out of the checkpoint here")


def reader(c, P, f):
    S = Sx(P, f); cg = S.cg
    R = {"labels": [], "words": [], "blocks": []}
    seq = [I for I in order(cg)]
    gets = [I for I in seq if name(I) == "fgetparameter"]
    for I in seq:
        if name(I) == "fgotonext":
            t = P.string(f, I.ops[1])
            if t:
                R["words"].append(t)
    for I in gets:
        lab = P.string(f, I.ops[1])
        if lab is None:
            c.count("labels of unknown text"); continue
        buf = addr_root(f, I.ops[2])
        uses = []
        for J in fresh_uses(S, I, buf):
            n = name(J)
            if n in INTP or n in FLTP or n in ("IndLax", "Ind"):
                uses.append((n, J))
        R["labels"].append((lab, I, uses))
    for I in seq:
        if name(I) in DATAR:
            R["blocks"].append(I)
    R["S"] = S
    R["gets"] = gets
    return R


def fresh_uses(S, I, buf):
    """calls that read the buffer while it still holds what I put there"""
    f = S.f; cg = S.cg
    out = []; seen = set(); st = [(I.blk, I.idx + 1)]
    while st:
        b, k = st.pop()
        stop = False
        for J in f.blocks[b].instrs[k:]:
            if J.op == "call" and any(is_local(o) and addr_root(f, o) == buf for o in J.ops):
                if name(J) in ("fgetparameter", "fscanline", "strcpy", "sscanf", "__isoc99_sscanf", "sprintf", "extrstr_before_after_EQ"):
                    stop = True; break
                out.append(J)
        if stop:
            continue
        for x in cg.succ[b]:
            if x not in seen:
                seen.add(x); st.append((x, 0))
    return out


def stored_field(S, J):
    """fields of the grid the value of this call is stored to"""
    f = S.f; out = []
    al = {J.name}
    for _ in range(4):
        for I in f.instrs():
            if I.name and I.op in CASTS and is_local(I.ops[0]) and I.ops[0] in al:
                al.add(I.name)
    for I in f.instrs():
        if I.op == "store" and is_local(I.ops[0]) and I.ops[0] in al:
            e = S(I.ops[1])
            if isinstance(e, tuple) and e[0] == "fld":
                out.append((e[2], I))
    return out, al


def match(c, W, R):
    S = R["S"]; f = S.f
    wl = [l[0] for l in W["labels"] if l[0]]
    pos = {}
    for k, l in enumerate(wl):
        pos.setdefault(l, k)
    last = -1
    byl = {}
    for l in W["labels"]:
        if l[0]:
            byl.setdefault(l[0], []).append(l)
    for w in R["words"]:
        c.count("section marks matched")
        if w not in W["words"]:
            c.violation("mark|%s" % w, where(None, f), "the reader waits for %s, which the writer does not write" % w)
    for lab, I, uses in R["labels"]:
        if lab not in byl:
            c.violation("label|%s" % lab, where(I, f), "the reader asks for %s, which the writer does not write" % lab)
            continue
        c.count("labels matched")
        for lab2, I2, _ in R["labels"]:
            if lab2 != lab and lab2 in byl and before(S.cg, I2, 0, I, 0):
                if all(before(W["S"].cg, a[6], a[7], b[6], b[7]) for a in byl[lab] for b in byl[lab2]):
                    c.violation("order|%s" % lab, where(I, f), "the reader asks for %s after %s, which is written behind it" % (lab, lab2))
        kinds = {l[2] for l in byl[lab]}
        for n, J in uses:
            isint = kinds <= set("di")
            if n in INTP and not isint:
                c.violation("kind|%s" % lab, where(J, f), "%s is written as %s but read as an integer" % (lab, byl[lab][0][1]))
            if n in ("IndLax", "Ind"):
                continue
            flds, al = stored_field(S, J)
            for fl, st in flds:
                for l in byl[lab]:
                    e = l[4]
                    wf = e[1][2] if isinstance(e, tuple) and e[0] == "ld" and isinstance(e[1], tuple) and e[1][0] == "fld" else None
                    c.count("fields matched")
                    if wf is not None and wf != fl:
                        c.violation("field|%s" % lab, where(st, f), "%s is written from '%s' but read into '%s'" % (lab, wf, fl))
                    if wf is None and isinstance(e, tuple) and e[0] in ("add", "sub"):
                        c.violation("field|%s" % lab, where(st, f), "%s does not hold '%s' unchanged" % (lab, fl))
            # parsed value changed on its way into the field
            for K in f.instrs():
                if K.op in ("add", "sub", "fadd", "fsub", "mul", "fmul") and any(is_local(o) and o in al for o in K.ops):
                    for Z in f.instrs():
                        if Z.op == "store" and Z.ops[0] == K.name:
                            e = S(Z.ops[1])
                            if isinstance(e, tuple) and e[0] == "fld" and e[2] in ("time", "iteration"):
                                c.violation("changed|%s" % lab, where(Z, f), "%s is changed before it is put back" % lab)
            if not flds:
                pass
        if lab in ("$time", "$iteration") and not any(stored_field(S, J)[0] for n, J in uses if n in INTP | FLTP):
            # (also through arithmetic above)
            c.violation("unused|%s" % lab, where(I, f), "the value of %s is read but not put back" % lab)
    for l in W["labels"]:
        if l[0] and l[0].startswith("$") and l[0] not in {x[0] for x in R["labels"]}:
            c.violation("unread|%s" % l[0], where(l[6]), "%s is written but never read" % l[0])
    # ---- blocks read
    lab = {}
    for l, I, uses in R["labels"]:
        for n, J in uses:
            lab.setdefault(l, set()).add(J.name)
    for I in R["blocks"]:
        c.count("data blocks read")
        p, k, sz, _ = DATAR[name(I)]
        m = isvbi(S(I.ops[p]))
        cnt = S.lin(I.ops[k])
        cn = None
        for l, Js in lab.items():
            if "nnodes" in l:
                for j in Js:
                    if cnt == S.lin(j):
                        cn = l
        eq = None
        if cn is None:
            # the announced number may have been compared with the box's own
            t = str(list(cnt)[0]) if len(cnt) == 1 and list(cnt.values()) == [1] else ""
            if "'nnodes'" in t:
                cn = "nnodes"
        if cn is None:
            c.violation("count-read", where(I, f), "the number of values read here is not the number announced in front of them")
        if m is not None:
            bx, i = m
            b = boxno(bx)
            if b is not None and "box" in lab:
                if not any(str(b) == str(S(j)) for j in lab["box"]):
                    if not (isinstance(b, tuple) and b[0] == "v"):
                        c.violation("box-read", where(I, f), "the data goes into another box than the one named in the file")
            if isinstance(i, tuple) and i[0] == "v" or isinstance(i, int):
                srcs = leaves(f, i[1]) if isinstance(i, tuple) else [i]
                c.count("variable index sources", len(srcs))
                if not any(j in srcs for j in lab.get("$variable", ())):
                    c.violation("var-read", where(I, f), "the data goes into another variable than the one named in the file")
            elif isinstance(i, tuple):
                if not any(str(S(j)) == str(i) for j in lab.get("$variable", ())):
                    c.violation("var-read", where(I, f), "the data goes into another variable than the one named in the file")
    # ---- skipping of unknown variables
    for I in f.instrs():
        if name(I) == "fgetc" and S.cg.loop_of(I.blk) is not None:
            h = S.cg.loop_of(I.blk)
            ivs = [x for x, (hh, i0, st) in S.ranges.items() if hh == h]
            if len(ivs) == 1:
                sp = S.span(ivs[0])
                if sp is None:
                    continue
                n = sp[1] + sp[0].scale(-1)
                c.count("skips judged")
                for l, Js in lab.items():
                    if "nnodes" in l:
                        w = [S.lin(j).scale(8) for j in Js]
                        if w and n not in w:
                            c.violation("skip", where(I, f), "the number of bytes skipped for an unknown variable is not that of its data")


def leaves(f, v):
    out = []; seen = set(); st = [v]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        d = f.defs.get(x) if is_local(x) else None
        if d is not None and d.op in ("phi",):
            st.extend(d.ops)
        elif d is not None and d.op == "select":
            st.extend(d.ops[1:])
        elif d is not None and d.op in CASTS:
            st.append(d.ops[0])
        else:
            out.append(x)
    return out
