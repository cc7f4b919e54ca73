"""C19: products of perfect sequences and of collections of measurement matrices, recomputed exactly."""
import vf, common
from vf import THOROUGH
def main():
    c = vf.Check("C19", rule="one product compared entry by entry with the exact one (and perfection re-established); distinct = distinct products")
    r = vf.rng("c19")
    if not vf.probe("mum"):
        c.note("the in-process monitor does not compile against this tree"); return c.finish()
    parts = []
    for k in range(32 if THOROUGH else 8):
        seqs = [f"{t} {r.choice(ids)}" for t, n, ids in common.grouped(types=("qts", "wts", "ws")) if r.random() < (.5 if n < 16 else .3)]
        parts.append((r.randrange(1 << 40), seqs))
    vf.pmap(lambda j: common.probe_run(c, "mum", ["prod", j[0], 20 if THOROUGH else 6], j[1], f"products of {len(j[1])} sequences"), parts)
    # perfect sequences over all 24 units, from the reference search
    return c.finish()
