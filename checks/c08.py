"""C08: the predicates against integer definitions; in process, and the command that checks a QT list."""
import vf, common
from vf import THOROUGH
def main():
    c = vf.Check("C08", rule="a predicate evaluated on a quadruple or quaternion sequence and compared with the integer definition; distinct = distinct sequences")
    r = vf.rng("c08")
    stored = [(t, s) for t, n, ids in common.grouped(per=12 if THOROUGH else 4, r=r) for s in ids]
    stored += common.spread(stored, r)
    parts = [[] for _ in range(8)]
    for i, (t, s) in enumerate(sorted(stored, key=lambda x: len(x[1]))): parts[i % 8].append(f"{t} {s}")
    if vf.probe("pred"):
        vf.pmap(lambda j: common.probe_run(c, "pred", [j[0], 120 if THOROUGH else 30, 4 if THOROUGH else 3], j[1], "predicates"), [(r.randrange(1 << 40), p) for p in parts])
    def listed(i):
        rr = vf.rng(f"c08/{i}"); n = rr.choice(range(2, 32)); ids = common.needles()["qts"][n]
        if not ids: return
        good = vf.orc(["randeq", "qts", 1, rr.randrange(1 << 40)], rr.sample(ids, min(4, len(ids))))
        near = []
        for s in good:   # one letter changed, or two swapped: still correct at many offsets
            l = list(s); k = rr.randrange(n)
            if rr.random() < .5: l[k] = rr.choice([x for x in vf.ALPH if x != l[k]])
            else: j = rr.randrange(n); l[k], l[j] = l[j], l[k]
            near.append("".join(l))
        f = [x.split() for x in vf.orc(["facts"], good + near)]
        ok = [x[1] == "1" and x[2] == "1" for x in f]
        T = vf.Tree(scripts=False)
        for what, ls, want in [("good", good, all(ok[:len(good)]))] + [(s, [*good, s], ok[len(good) + k]) for k, s in enumerate(near)]:
            common.put_result(T, "qts", n, ls)
            x = T.run("rust", "amicable", n)
            c.ok(1, f"amicable {n} {what}"); c.stat("lists_of_valid" if want else "lists_with_a_near_miss")
            if (x.returncode == 0) != want: c.bad(f"amicable {n}: status {x.returncode} on {ls}", x.stderr[-300:])
        T.rm()
    vf.pmap(listed, range(200 if THOROUGH else 60))
    return c.finish()
