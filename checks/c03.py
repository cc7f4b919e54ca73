"""C03: no class occurs twice in a result list."""
import vf, common, collections
def observe(c, run):
    if run.rc != 0 or run.seq is None:
        c.note(f"{run.name}: did not complete (status {run.rc}): {run.out[-300:]}"); c.stat("searches_not_completed"); return
    c.stat("searches" if not run.planted else "planted_searches")
    for name, rows in common.judge(run).items():
        seen = collections.defaultdict(list)
        for line, v in rows:
            if v is None: continue
            c.ok(1, f"{name}:{run.t}:{v[3]}"); c.stat(f"lines_{name}"); seen[v[3]].append(line)
        for k, ls in seen.items():
            if len(ls) > 1: c.bad(f"{run.name}: {name} holds the equivalent {' '.join(ls[:3])}")
        if len(seen) > 1: c.stat("lists_with_several_classes")
        if run.n > 3: c.sample(f"{run.name}: {name}: {len(rows)} lines, {len(seen)} classes")
def main():
    c = vf.Check("C03", rule="a result line compared, as a class, with all other lines of its list; distinct = (list, class)")
    for run in common.matrix(): observe(c, run)
    for run in common.needle_runs("c03", copies=4, classes=5, ndecoys=2): observe(c, run)
    return c.finish()
