"""Which explorations decide which property, and within what bounds."""
from vlib import Job, PyJob

SPECS = {}


def spec(pid, quick, thorough=(), bounds="", outside="", assumptions=()):
    SPECS[pid] = dict(quick=list(quick), thorough=list(thorough), bounds=bounds, outside=outside, assumptions=list(assumptions))


def M(name, wall=40, labels=None, **c):
    reach = c.pop("reach", ["step done"])
    return Job("managers", name, wall=wall, reach=reach, opts={"labels": labels} if labels else {}, **c)


def C(name, wall=40, reach=("clocked",), labels=None, **c):
    return Job("clock", name, wall=wall, reach=list(reach), opts={"labels": labels} if labels else {}, **c)


def A(name, wall=40, reach=("clocked",), labels=None, **c):
    return Job("api", name, wall=wall, reach=list(reach), opts={"labels": labels} if labels else {}, **c)


def R(name, wall=60, reach=("table",), labels=None, **c):
    return Job("roe", name, wall=wall, reach=list(reach), opts={"labels": labels} if labels else {}, **c)


def T(name, wall=40, reach=("clocked",), **c):
    return Job("threads", name, wall=wall, reach=list(reach), omp=True, **c)


CONT = dict(dens=10, floorlim=6)
STATE_ASSUME = ("trap states are arbitrary in volumes and fills within the invariant of C02 (levels inside the storage, volumes not negative and "
                "summing to at most one, fills between zero and the density); entries above the active levels are empty as the code leaves them")

# ------------------------------------------------------------------ trap populations
spec("C01", [
    M("ic_step", labels="conserve", traps=1, maxlev=2),
    M("ic_step", labels="conserve", traps=1, maxlev=2, phase=1, zerodens=1),
    M("ic_step", labels="conserve", traps=2, maxlev=2, dens=10, probs=1),
    M("sc_step", labels="conserve", traps=1, maxlev=1, dens=10),
    M("sc_step", labels="conserve", traps=1, maxlev=2, phase=4, probs=1, dens=10),
    M("sc_step", labels="conserve", traps=2, maxlev=1, phase=4, probs=1, dens=10),
    M("ic_step", labels="conserve", traps=2, maxlev=2, phase=4, probs=1, dens=4000), M("sc_step", labels="conserve", traps=2, maxlev=1, phase=4, probs=1, dens=4000),
    M("sc_step", labels="conserve", traps=1, maxlev=2, phase=4, probs=1, dens=4000),
    M("icco_step", labels="conserve", traps=1, maxlev=1, phase=4, floorlim=6, dens=4000), M("icco_step", labels="conserve", traps=2, maxlev=1, phase=4, floorlim=6, dens=4000),
    M("scco_step", labels="conserve", traps=1, maxlev=1, phase=4, cap=4, sigma=0.2, wall=25, reach=[], floorlim=6, dens=4000),
    M("icco_step", labels="conserve", traps=1, maxlev=1, **CONT),
    M("scco_step", labels="conserve", traps=1, maxlev=1, cap=4, sigma=0.2, wall=25, reach=[], **CONT),
    M("ic_step", labels="conserve", traps=1, maxlev=1, maxfirst=2, probs=1, dens=10, cap=5), M("icco_step", labels="conserve", traps=1, maxlev=1, maxfirst=2, cap=5, **CONT), M("icco_step", labels="conserve", traps=1, maxlev=1, maxfirst=2, cap=5, phase=4, floorlim=6, dens=4000), M("ic_step", labels="conserve", traps=1, maxlev=2, maxfirst=2, cap=6, phase=4, probs=1, dens=4000),
    M("ic_nonuniform", labels="conserve", maxlev=1),
    M("ic_history", labels="conserve", ops="ttt", dens=10, probs=1, reach=["history done"]),
    M("sc_history", labels="conserve", ops="ttt", dens=10, probs=1, reach=["history done"]),
    C("ref_full", labels="full", rows=2, empty=1),
    C("ref_full", labels="full", rows=3, empty=1),
    C("ref_full", labels="full", rows=2, empty=1, prescan=1),
], [
    M("ic_step", labels="conserve", traps=1, maxlev=3, wall=400, dens=10, probs=1),
    M("ic_step", labels="conserve", traps=2, maxlev=2, dens=10, wall=300),
    M("sc_step", labels="conserve", traps=1, maxlev=2, dens=10, wall=400),
    M("sc_step", labels="conserve", traps=2, maxlev=2, phase=4, probs=1, dens=10, wall=400),
    M("icco_step", labels="conserve", traps=1, maxlev=2, wall=400, **CONT),
    M("scco_step", labels="conserve", traps=1, maxlev=1, cap=4, sigma=0.2, wall=400, reach=[], **CONT),
    M("ic_history", labels="conserve", ops="tttt", dens=10, probs=1, wall=300, reach=["history done"]),
    C("ref_full", labels="full", rows=2, empty=1, traps="is", wall=300),
    C("ref_full", labels="full", rows=4, empty=1, wall=400),
], bounds="up to two species (densities of 10 and of 4000, so that electrons are too few) and two levels in the arbitrary starting state (three thorough) of which the first may lie up to two places up, cloud up to 1e5 electrons; histories of three transfers from empty traps; "
          "columns of two and three pixels with every transfer computed",
   outside="more levels or species at once; continuum traps beyond one level and the tabulated grid of three points; rounding of doubles",
   assumptions=[STATE_ASSUME, "exp and log are uninterpreted with sign, range and monotonicity axioms"])

spec("C02", [
    M("ic_step", labels="state", traps=1, maxlev=2),
    M("ic_step", labels="state", traps=1, maxlev=2, phase=1, zerodens=1),
    M("ic_step", labels="state", traps=2, maxlev=2, dens=10, probs=1),
    M("sc_step", labels="state", traps=1, maxlev=1, dens=10),
    M("sc_step", labels="state", traps=1, maxlev=2, phase=4, probs=1, dens=10),
    M("sc_step", labels="state", traps=2, maxlev=1, phase=4, probs=1, dens=10),
    M("ic_step", labels="state", traps=2, maxlev=2, phase=4, probs=1, dens=4000), M("sc_step", labels="state", traps=2, maxlev=0, phase=4, probs=1, dens=4000),
    M("sc_step", labels="state", traps=1, maxlev=1, phase=4, probs=1, dens=4000),
    M("icco_step", labels="state", traps=1, maxlev=1, phase=4, floorlim=6, dens=4000), M("icco_step", labels="state", traps=2, maxlev=1, phase=4, floorlim=6, dens=4000),
    M("scco_step", labels="state", traps=1, maxlev=1, phase=4, cap=4, sigma=0.2, wall=25, reach=[], floorlim=6, dens=4000),
    M("icco_step", labels="state", traps=1, maxlev=1, **CONT),
    M("scco_step", labels="state", traps=1, maxlev=1, cap=4, sigma=0.2, wall=25, reach=[], **CONT),
    M("ic_step", labels="state", traps=1, maxlev=1, maxfirst=2, probs=1, dens=10, cap=5), M("icco_step", labels="state", traps=1, maxlev=1, maxfirst=2, cap=5, **CONT),
    M("ic_nonuniform", labels="state", maxlev=1),
    M("ic_history", labels="state", ops="ttt", dens=10, probs=1, reach=["history done"]),
    M("sc_history", labels="state", ops="ttt", dens=10, probs=1, reach=["history done"]),
    M("ic_history", labels="state", ops="txtt", dens=10, probs=1, reach=["history done"]),
    C("ref_tables", rows=3, roe=2, nph=2, r0=1, r1=2, pumps=1, fix="0?0"), C("ref_tables", rows=3, roe=2, nph=2, r0=1, r1=2, pumps=1, fix="0?0", traps="s"),
    C("ref_tables", rows=3, roe=2, nph=3, r0=1, r1=2, pumps=1, fix="0?0"),
    C("ref_tables", rows=3, cols=3, reset=0, fix="963852741"),
], [
    M("ic_step", labels="state", traps=1, maxlev=3, wall=400, dens=10, probs=1),
    M("ic_step", labels="state", traps=2, maxlev=2, dens=10, wall=300),
    M("sc_step", labels="state", traps=1, maxlev=2, dens=10, wall=400),
    M("sc_step", labels="state", traps=2, maxlev=2, phase=4, probs=1, dens=10, wall=400),
    M("icco_step", labels="state", traps=1, maxlev=2, wall=400, **CONT),
    M("ic_history", labels="state", ops="tttt", dens=10, probs=1, wall=300, reach=["history done"]),
], bounds="as C01", outside="as C01", assumptions=[STATE_ASSUME])

spec("C03", [
    M("ic_prune", maxlev=3, reach=["pruned"]),
    M("sc_prune", maxlev=3, neg=1, reach=["pruned"]),
    M("ic_prune", traps=2, maxlev=3, reach=["pruned"]),
    M("ic_prune", maxlev=2, thenstep=1, dens=10, probs=1, reach=["pruned"]),
    M("sc_prune", maxlev=2, thenstep=1, dens=10, probs=1, reach=["pruned"]),
    M("prune_select", maxlev=3, reach=["nothing to prune", "something to prune"]),
    M("prune_select", maxlev=3, traps=2, reach=["nothing to prune", "something to prune"]),
    M("ic_history", ops="tptt", dens=10, probs=1, reach=["history done"]),
    M("ic_history", ops="ttpt", dens=10, probs=1, reach=["history done"]),
    M("sc_history", ops="tptt", dens=10, probs=1, reach=["history done"]),
    C("ref_tables", rows=3, prune=1, prunen=5),
], [
    M("ic_prune", maxlev=4, reach=["pruned"], wall=200),
    M("ic_history", ops="ttptt", dens=10, probs=1, reach=["history done"], wall=300),
    M("sc_history", ops="ttpt", dens=10, probs=1, reach=["history done"], wall=300),
], bounds="up to three levels (four thorough) with fills that do not increase with height, thresholds up to 1e4 electrons of either sign, one or two species; "
          "pruning anywhere in histories of three transfers; pruning after every row of a three-pixel column",
   outside="states whose fills increase with height are reached only through the histories", assumptions=[STATE_ASSUME])

spec("C30", [
    M("ic_store", dens=10, probs=1, reach=["restored"]),
    M("sc_store", dens=10, probs=1, reach=["restored"]),
    M("ic_store", dens=10, probs=1, reset=1, traps=2, reach=["restored"]),
    M("sc_store", dens=10, probs=1, reset=1, traps=2, reach=["restored"]),
    M("icco_store", maxlev=1, reset=1, reach=["restored"], **CONT),
    M("ic_history", ops="txtt", dens=10, probs=1, reach=["history done"]),
    M("sc_history", ops="txtt", dens=10, probs=1, reach=["history done"]),
    C("ref_tables", rows=3, express=1),
    C("ref_tables", rows=3, express=2),
    C("ref_tables", rows=2, cols=2, reset=0, express=1),
    C("columns", reset=0, roe=1, over=2), C("columns", traps="k", fix="bbdd", loose=1), C("columns", traps="ckk", fix="bhdb", loose=1), C("columns", traps="ssk", fix="bhdb", express=1, loose=1),
    C("columns", traps="iis", fix="?hdb"), C("columns", traps="n", fix="?hdb"),
] + [C("ref_tables", rows=5, express=2, nph=2, traps=t, fix="bdh0b", loose=1) for t in "isckn"], [
    C("ref_tables", rows=4, express=2, wall=300),
    C("ref_tables", rows=3, express=2, traps="s", wall=300),
], bounds="one and two species, up to two stored levels, then one transfer or a reset; columns of three pixels with one and two passes",
   outside="continuum populations beyond a reset", assumptions=[STATE_ASSUME])

# ------------------------------------------------------------------ clocking
CLK = ["image sizes, readout options and trap species of each exploration are concrete (listed under jobs); pixel values are symbolic"]
spec("C04", [
    C("ref_full", rows=2), C("ref_full", rows=2, empty=1), C("ref_full", rows=3), C("ref_full", rows=3, empty=1),
    C("ref_full", rows=2, traps="s"), C("ref_full", rows=2, traps="ii"), C("ref_full", rows=2, traps="is"),
    C("ref_full", rows=2, offset=1), C("ref_full", rows=2, prescan=1, empty=1), C("ref_full", rows=2, ccd=1),
    C("ref_full", rows=2, ccd=2), C("ref_full", rows=2, traps="ck", fix="bb", loose=1), C("ref_full", rows=3, traps="ck", fix="bbd", empty=1, loose=1),
    C("ref_tables", rows=2, nph=2), C("ref_tables", rows=2, nph=3, fix="?b"), C("ref_tables", rows=2, nph=2, away=0),
    C("ref_tables", rows=3, express=1), C("ref_tables", rows=3, express=2, empty=1), C("ref_tables", rows=3, over=3),
    C("ref_tables", rows=2, neg=0, lo=-100), C("ref_tables", rows=3, express=2), C("ref_tables", rows=3, express=1, neg=0, dens=400), C("ref_tables", rows=3, express=2, neg=0, dens=400, traps="s", fix="?d?"),
    C("ref_tables", rows=3, express=2, neg=0, dens=1500, fix="?h0"), C("ref_tables", rows=3, express=2, dens=1500, fix="?h0"), C("ref_tables", rows=3, express=2, neg=0, dens=1500, fix="0?0"), C("ref_tables", rows=3, express=1, dens=400, fix="?dh"),
    C("ref_tables", rows=2, nph=2, r1=1), C("ref_tables", rows=3, nph=3, r0=1, fix="b?d"), C("ref_tables", rows=2, cols=2, reset=0, fix="?bd?"),
    C("ref_tables", rows=2, nph=3, traps="sick", fix="bd", loose=1),
], [
    C("ref_full", rows=3, traps="s", wall=400), C("ref_full", rows=2, traps="n", wall=300), C("ref_full", rows=4, wall=400),
    C("ref_full", rows=3, traps="is", wall=400), C("ref_full", rows=3, offset=1, wall=300),
    C("ref_tables", rows=2, traps="si", nph=2, wall=400), C("ref_tables", rows=3, nph=2, wall=400), C("ref_tables", rows=3, nph=3, express=1, wall=400),
    C("ref_tables", rows=2, nph=4, wall=400),
], bounds="columns of two and three pixels (four thorough) with charge between 0 and 900 electrons, one to three phases (four thorough), one or two species of each kind",
   outside="longer columns; continuum species with symbolic pixel values (the tabulated inverse needs concrete fills)", assumptions=CLK)

spec("C08", [
    C("window", rows=2, cols=2, reach=["window"]), C("window", rows=3, cols=2, express=1, reach=["window"]),
    C("window_rows", rows=3, reach=["window"]), C("window_rows", rows=2, nph=2, away=1, fix="b?", reach=["window"]),
    C("ref_tables", labels="window", rows=2, cols=2, c0=1, c1=2, r0=1, express=1),
    C("ref_tables", rows=2, nph=2, r1=1), C("ref_tables", rows=3, nph=3, r0=1, fix="b?d"), C("ref_tables", rows=3, nph=2, r0=1, r1=2, fix="b?d", offset=1),
    C("window_rows", rows=3, offset=2, express=1, fix="b?d", reach=["window"]), C("window", rows=2, cols=2, offset=1, express=1, fix="?bd?", reach=["window"]),
    C("ref_tables", rows=4, r0=2, express=2, fix="bh?d"), C("ref_tables", rows=3, r0=1, r1=2, offset=2, fix="b?d"), C("ref_tables", rows=3, r0=1, prescan=1, fix="b?d", empty=1),
    A("compose", labels="window", fix="?b?d", ptraps="i", straps="i", win=1),
    A("symmetry", rows=2, cols=2, win=1, fix="?b?d"),
], [C("window", rows=3, cols=3, reach=["window"], wall=300), C("window_rows", rows=4, reach=["window"], wall=300)],
   bounds="images up to three by two with every window, empty ones included; selected windows with two and three phases, offsets and express passes", outside="windows with charge injected into the pixels before them by several phases (they share the boundary pixel)", assumptions=CLK)

spec("C09", [
    C("nothing", what=0, traps="is"), C("nothing", what=0, nph=3, traps="i", express=1), C("nothing", what=1, traps="i"),
    C("nothing", what=1, traps="s", rows=2, cols=1), C("nothing", what=1, traps="ck", rows=2, cols=1, fix="bh"), C("nothing", what=2, traps="isck"), C("nothing", what=2, traps="i", nph=2, express=2, offset=3),
    C("nothing", what=3, traps="i", ccd=4), C("nothing", what=3, traps="is", ccd=4, rows=2, cols=1), C("nothing", what=3, traps="ck", ccd=4, rows=2, cols=1),
    A("remove_fixed", ccd=4, reach=["corrected"]), A("remove_steps", n=0, reach=["corrected"]),
    C("nothing", what=3, traps="i", ccd=5), C("nothing", what=3, traps="is", ccd=5, rows=2, cols=1), C("nothing", what=1, traps="i", ccd=6, rows=2, cols=1),
    M("ic_step", traps=1, maxlev=1, zerodens=1, phase=1),
], [C("nothing", what=1, traps="isi", rows=3, cols=1, wall=300)],
   bounds="images up to three by two; without traps pixels between -1e6 and 1e6 electrons", outside="", assumptions=CLK)

spec("C10", [
    C("columns"), C("columns", traps="s", hi=300), C("columns", reset=0, roe=1, over=2), C("columns", rows=2, cols=3, fix="?b0d?h"),
    C("columns", rows=3, cols=2, reset=0, express=1, roe=1, over=2, fix="?bd?bd"), C("columns", rows=3, cols=2, express=1, fix="??bb??", prune=2, prunen=1),
    C("columns", traps="k", fix="bbdd", loose=1), C("columns", traps="ckk", fix="bhdb", loose=1), C("columns", traps="ssk", fix="bhdb", express=1, loose=1), C("columns", traps="iis", fix="?hdb"),
    C("ref_tables", rows=2, cols=2, reset=0, express=1), C("ref_tables", rows=2, cols=2, reset=0, fix="?b?d"), C("ref_tables", rows=3, cols=2, reset=0, express=2, fix="?bdd0?", traps="s"),
], [C("columns", rows=3, cols=2, wall=300)],
   bounds="two and three columns of two and three pixels", outside="", assumptions=CLK)

spec("C11", [
    C("causal", rows=2), C("causal", rows=2, traps="s"), C("causal", rows=3, row=1, fix="?d0"), C("causal", rows=3, row=2, express=1),
    C("causal", rows=3, row=2, empty=1, express=2, fix="?b?"), C("causal", rows=3, row=2, fix="b??", hi=300), C("causal", rows=2, over=2), C("causal", rows=2, offset=2, express=1),
    C("causal", rows=3, row=2, prune=1, prunen=3, express=1),
    C("causal", rows=2, lo=-300), C("causal", rows=3, row=2, lo=-300, express=1),
], [C("causal", rows=3, row=2, wall=400), C("causal", rows=3, row=2, traps="s", express=1, wall=300)],
   bounds="columns of two and three pixels in which one pixel takes two arbitrary values", outside="multiphase readout, where released electrons may legitimately join the preceding pixel", assumptions=CLK)

spec("C12", [
    A("symmetry", rows=2, cols=2), A("symmetry", rows=3, cols=2, traps="s", express=1), A("symmetry", rows=2, cols=3, nph=2, fix="?b0bdb"),
    A("symmetry", rows=2, cols=2, win=1, fix="?b?d"),
    A("compose", ptraps="i", straps="s", fix="?b?d"), A("compose", ptraps="i", straps="i", fix="?b?d", win=1), A("compose", rows=2, cols=3, fix="?0db00", pnph=2, sexpress=1, soffset=2, poffset=1),
    A("compose", fix="?bdb", neg=0, lo=-20, pexpress=1), A("compose", fix="bbhd", ptraps="ck", straps="is", pccd=3, sccd=1),
    A("compose", fix="bbhd", ptraps="k", straps="k"), A("compose", fix="bbhd", ptraps="c", straps="c"), A("compose", fix="?b?d", ptraps="s", straps="i"),
    A("compose", rows=1, cols=3, fix="bd?", neg=0, sexpress=1, sdens=400, straps="i"), A("symmetry", rows=1, cols=3, fix="bd?", neg=0, express=1, dens=400),
    A("compose", rows=1, cols=3, fix="bd?", straps="i", pexpress=1, sexpress=1, pprune=5, pprunen=2, sprune=1, sprunen=20),
    A("compose", rows=3, cols=1, fix="bd?", straps="i", pexpress=1, sexpress=1, pprune=1, pprunen=20, sprune=3, sprunen=4),
    A("compose", rows=1, cols=3, fix="bdh", ptraps="s", straps="s", pexpress=1, sexpress=1, pprune=5, pprunen=2, sprune=2, sprunen=20),
    A("compose", rows=1, cols=3, fix="h?0", neg=0, sexpress=2, sdens=1500, straps="i"), A("compose", rows=3, cols=1, fix="h?0", neg=0, pexpress=2, pdens=1500, ptraps="i"),
    A("compose", rows=1, cols=3, fix="h?0", sexpress=2, sdens=1500, straps="i"), A("symmetry", rows=1, cols=3, fix="0?0", neg=0, express=2, dens=1500), A("symmetry", rows=3, cols=1, fix="0?0", express=2, dens=1500),
    A("symmetry", rows=1, cols=3, fix="bd?", prune=2, prunen=20, express=1),
], [A("symmetry", rows=2, cols=3, win=1, wall=300), A("compose", ptraps="i", straps="i", fix="???d", wall=400)],
   bounds="images up to three by two, of which up to three pixels symbolic, every window", outside="", assumptions=CLK)

spec("C13", [
    C("offsets"), C("offsets", k=2), C("offsets", traps="s"), C("offsets", rows=2, express=1), C("offsets", rows=2, empty=1), C("offsets", rows=2, k=3, fix="?b"),
    C("offsets", rows=3, fix="?b?", express=2, k=2), C("offsets", rows=2, nph=2, fix="?b"), C("offsets", rows=2, prescan=2, empty=1),
    C("ref_tables", rows=3, over=3), C("ref_tables", rows=3, over=2, express=1), C("ref_full", rows=2, offset=1), C("ref_full", rows=2, prescan=1, empty=1),
    R("express_standard", over=1, maxrows=3, maxoff=2, maxpre=1),
    C("offsets", over=3, k=2, rows=2), C("offsets", over=2, k=1, rows=3, fix="?b?"), C("offsets", over=3, k=1, rows=3, fix="?b?", express=2),
    C("offsets", over=3, k=1, rows=3, fix="?b?", empty=1), C("offsets", over=3, k=1, rows=3, fix="?b?", integer=1, express=2),
], [C("offsets", rows=3, wall=300)],
   bounds="columns of two and three pixels, offsets and prescans up to three", outside="", assumptions=CLK)

spec("C28", [
    C("ref_tables", rows=2, roe=1), C("ref_tables", rows=2, roe=1, express=0, prescan=1), C("ref_tables", rows=3, roe=1, express=2, fix="?b?"),
    C("ref_tables", rows=3, roe=1, over=3, prescan=1, express=2, fix="?b?"),
    C("ref_tables", rows=2, roe=2, nph=2, r1=1, express=1), C("ref_tables", rows=3, roe=2, nph=2, r0=1, r1=2, pumps=4, express=2, fix="b?d"),
    C("ref_tables", rows=3, roe=2, nph=3, r0=1, r1=2, pumps=2, express=1, fix="0?0"), C("ref_tables", rows=3, roe=2, nph=2, r0=1, r1=2, pumps=3, express=2, empty=1, fix="0?0"),
    R("express_pumping"), R("express_injection", maxrows=4), R("express_injection", over=1, maxrows=3, maxover=6), R("clock_pumping", reach=["sequence"]),
    C("columns", reset=0, roe=1, over=2),
], [R("express_injection", over=1, wall=200), R("express_pumping", maxpumps=12, wall=300), C("ref_tables", rows=2, roe=2, nph=3, r1=1, express=0, wall=300)],
   bounds="columns of two and three pixels; two or three phases; up to four pumps clocked, up to seven (twelve thorough) tabulated", outside="pumping several active rows (refused by the code)", assumptions=CLK)

# ------------------------------------------------------------------ readout tables
RA = ["integers of the readout code are solver variables (the source is compiled with a symbolic integer type); numbers of rows and passes are followed path by path"]
spec("C05", [
    R("express_standard", maxrows=4), R("express_standard", maxrows=5, maxoff=1, maxpre=1), R("express_standard", over=1, maxrows=3, maxoff=2, maxpre=1),
    R("express_injection", maxrows=4), R("express_injection", over=1, maxrows=3, maxover=6), R("express_pumping"),
], [R("express_standard", wall=400), R("express_standard", maxrows=7, maxoff=3, maxpre=0, wall=800), R("express_standard", over=1, maxrows=5, maxoff=3, maxpre=2, wall=600),
    R("express_injection", wall=300), R("express_injection", over=1, wall=300), R("express_pumping", maxpumps=14, wall=400)],
   bounds="up to five rows, offsets up to three, prescans up to two, any express value up to 1e6, up to seven pumps", outside="longer columns", assumptions=RA)
spec("C07", [R("clock_standard", reach=["sequence"]), R("clock_pumping", reach=["sequence"]),
             C("ref_tables", rows=2, nph=2), C("ref_tables", rows=3, nph=3, fix="0?0"), C("ref_tables", rows=3, nph=2, away=0, fix="?00")],
     [C("ref_tables", rows=2, nph=3, away=0, wall=300)],
     bounds="up to six phases or steps, both release conventions", outside="", assumptions=RA)
spec("C25", [R("validation", reach=["constructed"]), R("copying", reach=["copied"])], [],
     bounds="any integers within +-1e6 for the options, up to six steps", outside="", assumptions=RA)

# ------------------------------------------------------------------ whole calculations
spec("C15", [
    A("remove_steps", reach=["corrected"], n=1, fix="?b?d", cols=2, dir="ps"), A("remove_steps", reach=["corrected"], n=0), A("remove_steps", reach=["corrected"], n=2),
    A("remove_steps", reach=["corrected"], n=2, neg=0), A("remove_steps", reach=["corrected"], n=1, neg=0, lo=-100, ptraps="s"), A("remove_steps", reach=["corrected"], n=3, fix="b?"),
    A("remove_steps", reach=["corrected"], n=2, dir="s", rows=1, cols=2, fix="b?"),
    A("remove_steps", reach=["corrected"], n=2, neg=0, rows=3, fix="?d0"), A("remove_steps", reach=["corrected"], n=2, neg=0, rows=3, fix="b0?", lo=-100),
    A("remove_steps", reach=["corrected"], n=2, neg=0, rows=3, fix="?d0", ptraps="s"), A("remove_steps", reach=["corrected"], n=3, neg=0, lo=-10, hi=30),
    A("remove_steps", reach=["corrected"], n=2, neg=0, dir="ps", cols=2, fix="b0?0"),
    A("remove_steps", reach=["corrected"], n=1, neg=0, rows=3, fix="bd?", pexpress=1, pdens=400), A("remove_steps", reach=["corrected"], n=1, neg=0, rows=1, cols=3, dir="s", fix="bd?", sexpress=1, sdens=400),
    A("remove_steps", reach=["corrected"], n=1, neg=0, rows=3, fix="h?0", pexpress=2, pdens=1500), A("remove_steps", reach=["corrected"], n=1, neg=0, rows=1, cols=3, dir="s", fix="h?0", sexpress=2, sdens=1500),
    A("remove_steps", reach=["corrected"], n=1, rows=3, fix="h?0", pexpress=2, pdens=1500), A("remove_steps", reach=["corrected"], n=2, neg=0, rows=3, fix="h0?", pdens=1500),
    A("remove_converges", reach=["corrected"], n=2), A("remove_converges", reach=["corrected"], n=3, fix="b?"), A("remove_converges", reach=["corrected"], n=1, rows=3, express=1),
    A("remove_fixed", reach=["corrected"], ccd=4), A("remove_fixed", reach=["corrected"], ccd=4, neg=0, traps="is", n=3),
], [A("remove_steps", reach=["corrected"], n=1, cols=2, dir="ps", wall=200), A("remove_converges", reach=["corrected"], n=2, rows=3, fix="b??", wall=300),
    A("remove_converges", reach=["corrected"], n=2, traps="s", wall=300)],
   bounds="up to three iterations on two and three pixels", outside="convergence is decided for the trap strengths listed (densities of 10 to 14 electrons)", assumptions=CLK)

spec("C20", [
    A("flat_interface", dir="ps", ptraps="is", straps="si", fix="?bbbbh", s0=1), A("flat_interface", dir="ps", ptraps="ck", straps="kc", fix="bbhbhb"),
    A("flat_interface", dir="ps", proe=2, pnph=2, rows=4, cols=1, sroe=1, fix="0?0b", p0=1, p1=2),
    A("flat_interface", dir="p", pnph=3, cols=2, fix="?bbb", pccd=3, paway=0, pexpress=1, pinteger=1),
    A("flat_interface", dir="p", proe=1, pover=3, preset=0, cols=2, fix="?bb?"),
    A("flat_interface", dir="ps", sroe=2, snph=2, rows=1, cols=4, proe=2, pnph=2, fix="0h0b", p0=0, p1=1, s0=1, s1=2, ppumps=1, spumps=3),
    A("flat_interface", dir="s", snph=2, sprescan=1, soffset=1, fix="?0b", sccd=2, rows=1, cols=3, sempty=1, sexpress=2),
    A("flat_interface", dir="s", sroe=1, sover=4, straps="n", fix="bbdhb0", sccd=1),
    A("flat_interface", dir="ps", neg=0, lo=-50, fix="?bd", rows=1, cols=3, pprune=1, pprunen=4, sprune=2, sprunen=7),
    A("flat_interface", dir="ps", fix="b?dhbd", p0=1, p1=2, s0=1, s1=3, poffset=2, soffset=1, pprescan=1, sprescan=2, pexpress=1, sexpress=2),
    A("flat_interface", dir="ps", ptraps="isck", straps="kcsi", fix="bdhbbd", pccd=1, sccd=3),
], [A("flat_interface", dir="p", pnph=3, cols=2, fix="?bb?", pccd=3, paway=0, pexpress=1, pinteger=1, wall=200)],
   bounds="images up to three by two with up to two symbolic pixels, every kind of readout and trap species", outside="", assumptions=CLK)

spec("C21", [
    A("pure"), A("pure", express=1, express2=2, offset=1), A("pure", express=2, rows=3, empty=1), A("pure", roe=2, nph=2, express=1, rows=3, p0=1, p1=2),
    A("pure", roe=2, express=2, pumps=3, nph=2, rows=4, rows2=4, cols2=2, cols=2, fix="0?00b0?d", p0=1, p1=2), A("pure", traps="s", offset2=3, prescan=1),
    A("pure", roe=1, express=1, express2=0, over=6, rows2=4), A("pure", traps="n", fix="b?", ccd=1), A("pure", traps="isck", fix="bd", nph=2),
    A("pure", rows=3, rows2=3, cols2=1, express=2, express2=2, offset2=1, fix="?b?"), A("pure", rows=3, rows2=3, cols2=1, express=2, express2=2, offset=2, empty=1, fix="?b?"),
    A("pure", rows=2, rows2=2, cols2=3, express=1, express2=2, offset=2, over=4, offset2=2, fix="?b"), A("pure", reset=0, cols=2, fix="?bbd"),
], [A("pure", traps="is", express=1, express2=3, rows=3, wall=300)],
   bounds="two calculations with the same objects after one calculation of another shape", outside="longer histories", assumptions=CLK)

spec("C32", [A("verbose", v=1), A("verbose", v=2), A("verbose", v=2, traps="si"), A("verbose", v=2, traps="s", nph=2, fix="?b"), A("verbose", v=2, traps="ck", fix="bb"),
             A("verbose", v=1, roe=1, express=1), A("verbose", v=2, traps="i", express=1, rows=3, fix="?b?"),
             A("verbose", v=1, roe=2, nph=2, rows=3, fix="0?0", p0=1, p1=2), A("verbose", v=2, roe=2, nph=2, rows=3, fix="0?0", p0=1, p1=2, pumps=1),
             A("verbose", v=2, roe=2, nph=3, rows=3, fix="0h0", traps="is", p0=1, p1=2), A("verbose", v=1, traps="nsick", rows=1, nph=2, fix="b")], [],
     bounds="verbosity 1 and 2 against 0", outside="", assumptions=CLK)

# ------------------------------------------------------------------ threads
spec("C14", [
    T("clock_threads", fix="?b?d"), T("clock_threads", fix="?bd0hb", cols=3, traps="s"), T("clock_threads", cols=3, traps="isck", fix="bdh0db"),
    T("clock_threads", rows=3, cols=2, express=1, fix="?bdh0b"), T("clock_threads", rows=3, cols=3, express=2, empty=1, fix="?bdhb0dhb", offset=1),
    T("clock_threads", rows=2, cols=3, nph=2, fix="?bdhb0", ccd=1), T("clock_threads", rows=3, cols=3, roe=2, nph=2, r0=1, r1=2, fix="000?bd000", express=2),
    T("clock_threads", rows=3, cols=2, roe=1, over=3, fix="?bdh0b"), T("clock_threads", rows=2, cols=3, reset=0, fix="?bdhb0"), T("clock_threads", rows=2, cols=3, reset=0, roe=1, over=2, express=1, fix="?bdhb0"),
    T("clock_threads", rows=3, cols=3, prune=1, prunen=20, express=1, fix="bhbdddh?h"), T("clock_threads", rows=2, cols=4, c0=1, r0=1, fix="bdhbb?dh", traps="ii"),
    T("clock_threads", rows=2, cols=3, neg=0, lo=-30, fix="?bdhb0"),
    T("cti_threads", fix="?bd0"), T("cti_threads", fix="?bd0", n=1),
    T("noise_threads", rows=3, cols=3, fix="?bdh0bdhb"), T("noise_threads", rows=3, cols=4, fix="dbh0b?dhbhd0", smooth=0), T("noise_threads", rows=4, cols=3, fix="dbh0b0dhb?d0"),
    T("noise_threads", rows=2, cols=4, fix="dbh?b0dh"), T("noise_threads", rows=4, cols=2, fix="dbh?b0dh"), 
], [T("clock_threads", rows=3, cols=3, threads=3, threads2=4, fix="?b?dhb0db", wall=300), T("cti_threads", fix="?bd0", n=2, wall=300)],
   bounds="two and three threads (four thorough) sharing up to four columns or twelve pixels out statically; nine schedules followed instruction by instruction and, on every explored path, no "
          "location written by one thread and used by another, so that every other schedule agrees",
   outside="the OpenMP runtime itself; more threads than four", assumptions=CLK)


# ------------------------------------------------------------------ physics of a single step
def P(name, wall=60, reach=("volume",), labels=None, **c):
    return Job("traps", name, wall=wall, reach=list(reach), opts={"labels": labels} if labels else {}, **c)


def U(name, wall=60, reach=("util",), **c):
    return Job("misc", name, wall=wall, reach=list(reach), **c)


UF = ["exp, log and pow are uninterpreted with their sign, range, inverse and monotonicity laws, and tied to their known values at constants"]
spec("C16", [P("volume"), P("volume", mode=1), P("volume", mode=1, nofef=1), P("volume", mode=2), P("volume", mode=3), P("volume", viaccd=1), P("ccd_phases"), P("ccd_sizes"),
             P("co_phases", reach=["volume"]), P("co_phases", slow=1, reach=["volume"]), P("co_phases", n=3, reach=["volume"]),
             PyJob("cti", "volume", wall=60, reach=["volume"])],
     [P("ccd_phases", max=6, wall=300), P("volume", mode=1, viaccd=1)],
     bounds="every full well from 100 to 1e6 electrons, notch up to 90, first-electron volume from 0 to 1, exponents from 0.01 to 10 and exactly 0.5, 1 and 2, clouds from -1e6 to 2e6; up to three phases (six thorough)",
     outside="a full well not above its notch", assumptions=UF)

spec("C17", [P("exposure", reach=["exposed"]), P("exposure", kind=1, reach=["exposed"]), P("exposure", kind=2, reach=["exposed"]), P("exposure", kind=3, reach=["exposed"]),
             P("exposed_total", reach=["exposed"]), P("exposed_total", kind=1, reach=["exposed"]), P("exposed_total", kind=2, reach=["exposed"]),
             M("ic_nonuniform", maxlev=1), M("ic_nonuniform", maxlev=2, probs=1), M("ic_nonuniform", maxlev=1, none=0, full="0.75"), M("ic_nonuniform", maxlev=1, phase=4, probs=1)],
     [M("ic_nonuniform", maxlev=2, wall=300), M("ic_nonuniform", maxlev=3, probs=1, wall=300)],
     bounds="every pair of limits in [0, 1], every three volumes in order; transfers from states of up to one level (two thorough)", outside="limits that exceed the pixel", assumptions=[])

spec("C18", [P("prob_instant", reach=["probabilities"]), P("prob_instant", traps=3, reach=["probabilities"]), P("prob_slow", reach=["probabilities"]), P("prob_slow", traps=3, reach=["probabilities"]),
             P("prob_slow", instant=1, reach=["probabilities"]), P("prob_slow", instant=1, traps=2, reach=["probabilities"]),
             P("prob_slow", instant=2, traps=2, reach=["probabilities"]), P("prob_slow", instant=2, traps=3, reach=["probabilities"]), P("ccd_phases")]
     + [P("integrand", which=w, tcase=t, instant=i, reach=["integrand"]) for w in (0, 1, 2) for t in (0, 1, 2) for i in (0, 1) if w == 2 or not i],
     [P("prob_slow", traps=6, reach=["probabilities"], wall=300)],
     bounds="every release and capture timescale from 1e-3 to 1e3, dwell times from 0 to 100, up to three species (six thorough), every lifetime of a continuum",
     outside="the accuracy of the numerical quadrature and root finder, which are replaced by the integrand at one arbitrary lifetime", assumptions=UF)

TAB = dict(reach=["table"], floorlim=10)
spec("C19", [P("icco_table", **TAB), P("icco_table", n=3, sigma=1.5, tau=5, **TAB), P("icco_table", what=1, **TAB), P("icco_table", what=2, **TAB), P("icco_table", what=3, **TAB), P("icco_table", what=1, n=7, **TAB), P("icco_table", what=3, n=7, tmin=0.3, tmax=9, **TAB),
             P("scco_table", **TAB), P("scco_table", n=3, sigma=1.5, tau=5, **TAB), P("scco_table", what=1, **TAB), P("scco_table", what=2, **TAB), P("scco_table", what=3, **TAB), P("scco_table", what=1, n=7, **TAB), P("scco_table", what=3, n=7, tmin=0.3, tmax=9, **TAB),
             P("capture_table", wall=50, **TAB), P("capture_table", n=3, wall=50, **TAB), P("capture_table", n=2, dwell=0.3, wall=50, **TAB), P("capture_table", n=5, lo=0.5, hi=8, tauc=0.05, wall=50, **TAB)]
             + [P("capture_table", what=2, **TAB, **k) for k in (dict(), dict(n=7), dict(n=2, dwell=0.3), dict(n=5, tauc=0.05), dict(tau=100, sigma=0.5), dict(tau=20, sigma=2, n=3))]
             + [P("inverse", which=w, fcase=f, reach=["inverse"]) for w in (0, 1) for f in (0, 1, 2)]
             + [P(h, what=2, **TAB, **k) for h in ("icco_table", "scco_table") for k in (dict(tau=100, sigma=0.5), dict(tau=30, sigma=2, n=3), dict(tau=0.2, sigma=1, tmax=2), dict(tau=5, sigma=0.1))]
             + [P("capture_table", tau=20, sigma=2, n=2, lo=1, hi=6, **TAB)],
     [P("icco_table", n=20, floorlim=40, reach=["table"], wall=300), P("scco_table", what=1, n=20, wall=300, **TAB), P("capture_table", n=12, floorlim=30, reach=["table"], wall=300)],
     bounds="tables of two to seven points (20 thorough) for the listed medians and widths; every elapsed time from 0.05 to 100 and every filled fraction the table covers",
     outside="medians and widths other than those listed (there the integrals are compared with a direct sum)", assumptions=UF)

N = dict(reach=["modelled"], amp=4)
spec("C22", [U("noise_flat", reach=["modelled"]), U("noise_bound", reach=["modelled"]), U("noise_bound", smooth=0, reach=["modelled"]),
             U("noise_model", **{"in": "?", "reach": ["modelled"]}), U("noise_model", out="?", reach=["modelled"]), U("noise_model", out="0?", smooth=0, reach=["modelled"]),
             U("noise_model", out="?", **dict(N, **{"in": "?"}))]
     + [U("noise_model", rows=3, cols=4, smooth=k % 2, **dict(N, **{"in": "0" * k + "?"})) for k in (0, 2, 3, 4, 5, 7, 8, 9, 11)]
     + [U("noise_model", rows=4, cols=3, smooth=(k + 1) % 2, **dict(N, out="0" * k + "?")) for k in (0, 1, 2, 3, 4, 5, 8, 9, 10, 11)]
     + [U("noise_model", rows=2, cols=4, **dict(N, out="00?")), U("noise_model", rows=4, cols=2, **dict(N, out="000?")), U("noise_model", rows=4, cols=4, **dict(N, out="000000?"))],
     [U("noise_model", wall=300, **dict(N, **{"in": "??"})), U("noise_model", rows=3, cols=3, pixel=4, wall=400, **dict(N, out="000000?", **{"in": "0000?"}))],
     bounds="images up to four by four with one or two symbolic pixels in the image or its estimate, every amplitude from 0.5 to 20", outside="images of a single row or column", assumptions=[])

spec("C31", [U("util_transpose"), U("util_clamp"), U("util_arange"), U("util_arange", whole=1, reach=["whole"]), U("util_elapsed"), U("util_files")], [U("util_transpose", max=8), U("util_arange", max=30, wall=200)],
     bounds="images up to four by four (eight thorough), every value; ranges up to six elements (thirty thorough); files of up to three by three pixels within a million", outside="",
     assumptions=["writing a number to a file loses at most half a unit of the last printed digit; reading loses nothing"])


# ------------------------------------------------------------------ Python layer
def PY(file, name, reach, wall=60, **c):
    return PyJob(file, name, wall=wall, reach=[reach] if isinstance(reach, str) else list(reach), **c)


PYA = ["the Python sources are executed by CPython itself on symbolic numbers; numpy is a model of the operations used, whose answers are compared with real numpy on a solved example of each path"]
NZ, BO, CT = "noise", "bounce", "cti"
spec("C23", [
    PY(NZ, "split", "split"), PY(NZ, "split", "split", iter=2, wall=100), PY(NZ, "split", "split", layout=2, stored=1, ny=2, wall=120), PY(NZ, "split", "split", iter=3, frac=0, nx=1, wall=120),
    PY(NZ, "split", "split", ny=2, layout=1, smooth=0, frac=0), PY(NZ, "nosplit", "split"), PY(NZ, "sigma", "set"),
    PY(CT, "noise_correction", "corrected"), PY(CT, "noise_correction", "corrected", neg=0), PY(CT, "noise_correction", "corrected", iter=3, layout=1),
], [PY(NZ, "split", "split", ny=2, nx=2, wall=400), PY(NZ, "split", "split", iter=3, wall=400)],
    bounds="images up to two by two in every memory layout, up to three iterations; the estimate of the noise in each pixel is an arbitrary function of the images passed to it",
    outside="the formula of that estimate, which is C22; tuning of the fraction by the unfinished optimiser", assumptions=PYA)

spec("C24", [
    PY(BO, "reference", "bounced"), PY(BO, "reference", "bounced", win=1, nx=3), PY(BO, "reference", "bounced", order=1, nx=3), PY(BO, "reference", "bounced", nx=7, ny=1),
    PY(BO, "flat", "bounced"), PY(BO, "flat", "bounced", coupled=0), PY(BO, "linear", "bounced", nx=3), PY(BO, "lists", "bounced", nx=3),
    PY(BO, "inverse", "removed", nx=4, ny=1), PY(BO, "inverse", "removed", nx=4, ny=1, iter=3), PY(BO, "inverse", "removed", nx=3, ny=2, iter=2), PY(BO, "inverse", "removed", nx=3, ny=1, list=2, win=1), PY(BO, "inverse", "removed", nx=3, ny=1, list=1), PY(BO, "inverse", "removed", nx=3, ny=2, list=2),
    PY(BO, "refuse", "constructed"), PY(BO, "omega0", "frequency"), PY(CT, "added_bounce", "called"), PY(CT, "added_bounce", "called", win=1), PY(CT, "correction", "corrected", bounce=1),
], [PY(BO, "reference", "bounced", nx=12, ny=1, wall=300), PY(BO, "linear", "bounced", nx=5, ny=3, wall=300), PY(BO, "inverse", "removed", nx=5, ny=2, iter=3, wall=300)],
    bounds="rows of up to seven pixels (twelve thorough), every value of the pixels, kick and bias; up to three corrections; one or two reference models",
    outside="fitting a pixel bounce model to data", assumptions=PYA + ["cosine, exponential and arc tangent are uninterpreted with their laws"])

spec("C26", [
    PY(CT, "arguments", "called"), PY(CT, "arguments", "called", order="isco", proe=2, layout=1), PY(CT, "arguments", "called", order="oc", proe=1, convert=1, layout=2),
    PY(CT, "arguments", "called", order="i", par=0, sroe=1, layout=3), PY(CT, "arguments", "called", ser=0, pphases=3, order="so", layout=4), PY(CT, "arguments", "called", ser=0, shortccd=1, order="so"),
    PY(CT, "correction", "corrected"), PY(CT, "correction", "corrected", neg=0, iter=2), PY(CT, "correction", "corrected", ser=1, iter=3, layout=1, nx=1), PY(CT, "correction", "corrected", layout=4),
    PY(CT, "refuse", "called"), PY(CT, "defaults", "called"), PY(CT, "poisson", "drawn"), PY(CT, "volume", "volume"),
], [PY(CT, "correction", "corrected", iter=5, nx=1, ny=2, wall=300), PY(CT, "arguments", "called", order="oscii", proe=1, sroe=2, pphases=2, layout=4, wall=200)],
    bounds="every value of every numerical setting; up to five species in several orders, every kind of readout in either direction, images of up to two by two in four memory layouts and data types",
    outside="Cython itself: the wrapper is executed as translated Python with its buffer declarations enforced", assumptions=PYA + ["the compiled library is a stand-in that records every argument and returns an arbitrary image"])

spec("C27", [PY(CT, "hst", ["preset", "refused"])], [], bounds="every Julian date from 2440000 to 2500000", outside="", assumptions=PYA)

spec("C33", [
    PY(NZ, "merits", "merits"), PY(NZ, "merits", "merits", ny=5, nx=5, abs=0), PY(NZ, "merits", "merits", ny=1, nx=3), PY(NZ, "merits", "merits", ny=3, nx=1), PY(NZ, "merits", "merits", ny=1, nx=5),
    PY(NZ, "merits", "merits", ny=5, nx=3, abs=0), PY(NZ, "merits", "merits", ny=3, nx=5, abs=0), PY(NZ, "covariance", "covariance"), PY(NZ, "covariance", "covariance", nx=4, my=3, mx=1),
    PY(NZ, "covariance", "covariance", ny=4, nx=7, my=1, mx=5), PY(NZ, "covariance", "covariance", ny=5, nx=9, my=3, mx=5), PY(NZ, "flatimage", "covariance"),
], [PY(NZ, "merits", "merits", ny=5, nx=3, wall=300), PY(NZ, "covariance", "covariance", ny=9, nx=8, my=5, mx=3, wall=300)],
    bounds="matrices up to three by five, images up to five by nine pixels (nine by eight thorough), every value", outside="the estimate of uncertainties by stacking, plotting", assumptions=PYA)

VV = "vv"
spec("C34", [PY(VV, "recovered", "tested", **k) for k in (dict(), dict(star=1), dict(pre=1), dict(pre=1, post=1, serial=1), dict(given=1), dict(guess=1), dict(guess=2), dict(fitbias=0), dict(fitbias=0, guess=1),
                                                            dict(iterate=1), dict(iterate=1, guess=1), dict(alone=1, serial=1, fitbias=0), dict(alone=1, guess=1, given=1), dict(alone=1, serial=1, given=1, guess=1), dict(prescan=1), dict(notch=0, over=4, cols=4, traps=3))]
     + [PY(VV, "both", "tested"), PY(VV, "both", "tested", skip="ccd"), PY(VV, "both", "tested", skip="traps", over=3, start=3, traps=3, cols=4),
        PY(VV, "library", "tested", start=12, guess=1), PY(VV, "library", "tested", start=12, over=3), PY(VV, "library", "tested", start=10, over=12), PY(VV, "library", "tested", start=12, poor=1),
        PY(VV, "sources", "tested"), PY(VV, "sources", "tested", star="-"), PY(VV, "sources", "tested", star="14", rows=3, start=4, cols=7), PY(VV, "sources", "tested", prescan=2, rows=3, cols=12),
        PY(VV, "refuse", "refused"), PY(VV, "refuse", "refused", notch=0),
        PY(VV, "around", "tested"), PY(VV, "around", "tested", remove=2), PY(VV, "around", "tested", remove=1, vv=0), PY(VV, "around", "tested", vv=0)],
     [PY(VV, "recovered", "tested", start=5, over=5, cols=5, traps=3, guess=1, wall=300), PY(VV, "sources", "tested", star="135", rows=3, start=5, cols=10, wall=300)],
     bounds="overscans of two to twenty pixels below columns of two to twelve rows, one to three species with lifetimes 0.5, 2 and 5, every density, amplitude, bias and guess at the bias; a linear well",
     outside="overscans without any scatter between columns (their weights are infinite); what a fit to noisy trails returns", 
     assumptions=PYA + ["the least-squares solver returns the solution without residual where the equations have one"])

DEPTH = dict(reach=["depth"], dens=10)
spec("C35", [
    M("ic_profile", maxlev=1, **DEPTH), M("ic_profile", maxlev=2, probs=1, **DEPTH), M("ic_profile", maxlev=1, traps=2, probs=1, **DEPTH),
    M("ic_profile", maxlev=2, phase=4, probs=1, maxfirst=1, **DEPTH), M("ic_profile", maxlev=1, phase=1, probs=1, **DEPTH), M("ic_profile", maxlev=1, phase=2, probs=1, **DEPTH),
    M("sc_profile", maxlev=1, probs=1, **DEPTH), M("sc_profile", maxlev=2, probs=1, **DEPTH), M("sc_profile", maxlev=1, traps=2, probs=1, phase=4, **DEPTH),
    M("sc_profile", maxlev=1, probs=1, phase=1, **DEPTH), M("sc_profile", maxlev=1, **DEPTH), M("sc_profile", maxlev=1, probs=1, phase=2, **DEPTH),
    M("ic_profile", maxlev=1, traps=2, probs=1, phase=4, reach=["depth"], dens=4000), M("sc_profile", maxlev=1, traps=2, probs=1, phase=4, reach=["depth"], dens=4000),
    M("icco_profile", maxlev=1, traps=2, probs=1, floorlim=6, reach=["depth"], dens=4000), M("icco_profile", maxlev=1, floorlim=6, wall=150, **DEPTH), M("scco_profile", maxlev=1, cap=4, sigma=0.2, floorlim=6, wall=150, **DEPTH),
], [
    M("ic_profile", maxlev=3, wall=400, **DEPTH), M("ic_profile", maxlev=2, traps=2, wall=400, **DEPTH), M("ic_profile", maxlev=2, phase=2, wall=400, **DEPTH), 
    M("sc_profile", maxlev=2, wall=400, **DEPTH), M("sc_profile", maxlev=3, probs=1, phase=4, wall=400, **DEPTH), M("sc_profile", maxlev=2, traps=2, probs=1, wall=400, **DEPTH),
    M("icco_profile", maxlev=2, floorlim=6, wall=600, **DEPTH), M("scco_profile", maxlev=2, cap=6, sigma=0.2, floorlim=6, wall=600, **DEPTH),
],
     bounds="one transfer from every state of up to two levels (three thorough) and one or two species, every number of electrons, every depth; linear, notched, floored and arbitrary monotone wells; every probability, or fixed ones for the larger states",
     outside="species with a non-uniform distribution over depth; states of more levels; the tables of the continuum themselves, which are C19", assumptions=[STATE_ASSUME])

UN = (dict(traps="ii"), dict(traps="si"), dict(traps="n", fix="b?"), dict(traps="c", fix="?b", lo=100, loose=1), dict(traps="k", fix="?", rows=1, lo=100, offset=1, loose=1), dict(traps="i", nph=2, fix="?h"), dict(traps="i", rows=3, fix="?b?", express=2),
      dict(traps="i", roe=1, over=2, cols=2, reset=0, fix="?b?d"), dict(traps="is", roe=2, rows=1), dict(traps="i", ccd=4, neg=0))
spec("C36", [C("units", what=w, **k) for w in (0, 1, 2, 3) for k in UN]
     + [C("units", what=w, k=10000, inverse=i, **k) for w in (0, 1) for i in (0, 1) for k in (UN[0], UN[1], UN[3], UN[4])]
     + [C("units", what=1, k=10000, inverse=i, traps=t, fix="b00?", rows=4, tau=4, lo=100, loose=1) for i in (0, 1) for t in "ck"],
     [C("units", what=w, wall=200, **k) for w in (0, 1, 2, 3) for k in (dict(traps="iis", nph=3, fix="?h"), dict(traps="ni"), dict(traps="is", rows=3), dict(traps="i", rows=4, express=2, k=3), dict(traps="ck", fix="?b", lo=100, loose=1))],
     bounds="columns of one to three rows (four thorough), factors of 2, 10000 and 1/10000 (three thorough), every kind of trap and readout, several wells; every value of the free pixels",
     outside="other factors; tables of continuum traps are compared to a thousandth of an electron", assumptions=[])
EM = dict(empty=1)
spec("C37", [C("delayed", **k, **EM) for k in (dict(), dict(rows=3), dict(traps="s"), dict(traps="is"), dict(traps="n", fix="b?"), dict(offset=2, rows=3, fix="b?"), dict(prescan=1), dict(traps="c", fix="b?"), dict(traps="k", fix="b?"), dict(rows=3, over=2), dict(ccd=1), dict(ccd=2), dict(ccd=5, fix="b?"), dict(rows=4, fix="?b?b"))]
     + [C("delayed", dens=d, **k, **EM) for d in (1500, 4000) for k in (dict(), dict(ccd=4), dict(traps="s"), dict(traps="s", ccd=4), dict(traps="s", ccd=4, fix="h?"), dict(traps="is", rows=1, ccd=4), dict(traps="c", ccd=4, fix="h?"), dict(traps="k", ccd=4, rows=1), dict(traps="k", ccd=4, fix="h?"))],
     [C("delayed", wall=300, **k, **EM) for k in (dict(rows=4), dict(rows=3, traps="s"), dict(rows=3, traps="is"), dict(rows=3, traps="n", fix="b?"), dict(rows=3, ccd=2))],
     bounds="columns of two to four rows, every kind of trap, offsets and prescans of up to two rows; every value of the free pixels", outside="express approximations and traps that do not start empty (electrons are not conserved there by design); several phases, whose charge may be released to either side", assumptions=[])
