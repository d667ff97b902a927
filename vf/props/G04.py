"""dag2pag returns the PAG of the DAG given which variables are latent and which are selected on."""
from causallearn.graph.Dag import Dag
from causallearn.utils.DAG2PAG import dag2pag

from .. import gen, lib, ref
from ..core import Stream
from . import C04

ID = "G04"
RULE = ("a case = one DAG with latent and selection variables passed to the conversion; non-trivial when the PAG has an edge; "
        "distinct by (DAG, latent, selected)")
ASSUMPTIONS = C04.ASSUMPTIONS


def conv(ctx, sel=0, lat=3, corpus=False):
    r = ctx.rng
    n, E, L, S, obs = C04.corpus_world(ctx) if corpus else C04.world(r, sel=sel, lat=lat)
    mag, want = C04.true_pag(n, E, L, S, obs)
    names = gen.names(r, n)
    order = [sorted(E)[int(i)] for i in r.permutation(len(E))]
    g, nodes = lib.dag_of(names, E, Dag, order)
    before = (g.graph.tobytes(), [x.get_name() for x in g.get_nodes()])
    Ln, Sn = [nodes[i] for i in L], [nodes[i] for i in S]
    ctx.note({"n": n, "E": lib.E_(E), "latent": L, "selected": S})
    p = dag2pag(g, Ln, Sn) if S or r.random() < .5 else dag2pag(g, Ln)
    ctx.check(before == (g.graph.tobytes(), [x.get_name() for x in g.get_nodes()]), "input-mutated")
    ctx.check((Ln, Sn) == ([nodes[i] for i in L], [nodes[i] for i in S]), "argument-mutated")
    onames = [names[i] for i in obs]
    pn = [x.get_name() for x in p.get_nodes()]
    if not ctx.check(sorted(pn) == sorted(onames), "nodes", f"{pn} for observed {onames}"):
        return
    ctx.check(pn == [names[i] for i in sorted(obs)], "node-order", f"{pn} for observed {onames}")
    got = lib.marks(p, onames)
    if want.edges():
        ctx.state(n, sorted(E), L, S)
    for i, j in want.edges():
        for a in (want.m[i][j], want.m[j][i]):
            ctx.event({1: "circle", 2: "arrow", 3: "tail"}[a])
    if got.key() != want.key() and C04.r9_walk(got, want, mag):
        ctx.fail("pag/r9-any-walk", f"DAG {lib.E_(E)} latent={L} selected={S} observed={obs}: got {got.show()} want {want.show()}")
        return
    ctx.event("exact", got.key() == want.key())
    ctx.check(got.key() == want.key(), "pag/" + ("sel-" if S else "") + C04.classify(got, want),
              lambda: f"DAG {lib.E_(E)} latent={L} selected={S} observed={obs}: got {got.show()} want {want.show()}")


STREAMS = {
    "latent": Stream(lambda c: conv(c), 250, 12000, need=["circle", "arrow", "tail"]),
    "selected": Stream(lambda c: conv(c, sel=2), 200, 8000, need=["circle", "arrow", "tail"]),
    "corpus": Stream(lambda c: conv(c, corpus=True), 243, 6000, timeout=40,
                     need=["circle", "arrow", "tail"] + ["needs_" + t for t in ("PD", "R4", "R5", "R6", "R7", "R8", "R9", "R10")]),
}
