"""C20: operator algebra, measurement and unitary operators, recomputed exactly."""
import vf, common
from vf import THOROUGH
def main():
    c = vf.Check("C20", rule="one operator, collection or reported size compared with the exact one; distinct = distinct sequences")
    r = vf.rng("c20")
    if not vf.probe("mum"):
        c.note("the in-process monitor does not compile against this tree"); return c.finish()
    parts = []
    for k in range(16 if THOROUGH else 8):
        seqs = [f"{t} {s}" for t, n, ids in common.grouped(types=("qts", "wts"), lengths=range(1, 20 if THOROUGH else 15), per=6 if THOROUGH else 3, r=r) for s in ids]
        parts.append((r.randrange(1 << 40), seqs[k % 8::8] + r.sample(seqs, min(6, len(seqs)))))
    vf.pmap(lambda j: common.probe_run(c, "mum", ["ops", j[0], 60 if THOROUGH else 12, 20], j[1], f"operators of {len(j[1])} sequences"), parts)
    return c.finish()
