"""C23: the auxiliary QT list of Williamson-type searches against the QT classes of its own result, against QT searches and
against the independent enumeration."""
import vf, common
from vf import THOROUGH
def main():
    c = vf.Check("C23", rule="one class of the auxiliary QT list (or of a list it must coincide with) judged; distinct = QT classes seen")
    QUICKM = dict(wts=(11, [(12, 4), (13, 2)]), qts=(8, [(9, 3), (10, 2), (11, 1)]))
    runs = common.matrix(QUICKM, dict(wts=(13, [(14, 2), (15, 2)]), qts=(11, [(12, 2)])))
    needle = common.needle_runs("c23", per_length=6 if THOROUGH else 2, types=("wts",))
    qts_lists = {}
    for r in runs:
        if r.t == "qts":
            if r.rc: c.bad(f"{r.name}: exit status {r.rc}", r.out); continue
            qts_lists.setdefault(r.n, []).append((r, set(x[3] if x else "bad" for x in vf.classify("qts", r.seq or []))))
    seen = {}
    for r in runs + needle:
        if r.t != "wts": continue
        if r.rc: c.bad(f"{r.name}: exit status {r.rc}", r.out); continue
        c.stat("planted_searches" if r.planted else "searches")
        if r.qts is None: c.bad(f"{r.name}: no result-qts.seq"); continue
        cls = vf.classify("qts", r.qts); got = [x[3] if x and x[0] == r.n and x[1] and x[2] else "bad" for x in cls]
        for l, g in zip(r.qts, got):
            if g == "bad": c.bad(f"{r.name}: the auxiliary list holds {l}, which is no QT sequence of that length")
        dup = {g for g in got if got.count(g) > 1} if len(set(got)) < len(got) else set()
        if dup: c.bad(f"{r.name}: {len(got)} lines of the auxiliary list are only {len(set(got))} QT classes", "\n".join(l for l, g in zip(r.qts, got) if g in dup))
        S = set(got)
        own = set(x[3] if x else "bad" for x in vf.classify("wts", r.seq or []))
        if "bad" in own: c.bad(f"{r.name}: result.seq holds a line that is no sequence", r.text); continue
        want = common.wts_to_qts(own); c.ok(len(want)); c.stat("qt_classes_of_results", len(want))
        for w in want: c.ok(0, w)
        if S != want:
            c.bad(f"{r.name}: the auxiliary list lacks {len(want - S)} and has {len(S - want)} too many QT classes of its own result", f"missing {sorted(want - S)[:10]}\nextra {sorted(S - want)[:10]}\n" + "\n".join(r.seq))
        if r.planted:
            full = common.wts_to_qts(r.want); c.ok(len(full)); c.stat("planted_qt_classes", len(full))
            if not full <= S: c.bad(f"{r.name}: {len(full - S)} QT classes of the planted sequences are missing", "\n".join(sorted(full - S)[:10]))
        else:
            full = common.expected("qts", r.n) if r.n <= 13 else common.wts_to_qts(common.expected("wts", r.n)); c.ok(len(full)); c.stat("enumerated_qt_classes", len(full))
            if S != full: c.bad(f"{r.name}: {len(S)} QT classes listed; there are {len(full)}", f"missing {sorted(full - S)[:10]}\nextra {sorted(S - full)[:10]}")
            for q, Q in qts_lists.get(r.n, []):
                c.ok(1); c.stat("compared_with_qt_searches")
                if Q != S: c.bad(f"{r.name} and {q.name}: different QT classes", f"only wts {sorted(S - Q)[:10]}\nonly qts {sorted(Q - S)[:10]}")
        # the quadruple form describes the same sequences in the same order
        quads = vf.parse_qseq(r.qqseq or "")
        if None in quads or len(quads) != len(r.qts): c.bad(f"{r.name}: result-qts.qseq holds {len(quads)} readable quadruples for {len(r.qts)} sequences", r.qqseq)
        else:
            ch = vf.quads_to_chars(quads); c.stat("quadruples_compared", len(ch))
            if ch != r.qts: c.bad(f"{r.name}: result-qts.qseq and result-qts.seq differ")
        if r.n % 4 == 0 and not r.planted: c.sample(f"{r.name}: {len(own)} Williamson-type classes, {len(S)} QT classes")
        if r.planted and r.n > 25: c.sample(f"{r.name}: {len(r.seq)} sequences, {len(S)} QT classes")
    return c.finish()
