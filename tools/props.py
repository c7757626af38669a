"""Which models and which executions decide each property."""
import random

WRAP = ["-Wl," + ",".join("--wrap=" + x for x in (
    "memcpy", "memmove", "memset", "free", "realloc",
    "_ZN6ndt_2d5GraphC1Eb", "_ZN6ndt_2d5GraphC1EbRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZN6ndt_2d5GraphD1Ev",
    "_ZN6ndt_2d11CeresSolver8optimizeERKSt6vectorISt10shared_ptrINS_10ConstraintEESaIS4_EERS1_IS2_INS_4ScanEESaISA_EE"))]
DRIVERS = {  # name: (source, variant, extra link flags)
    "drv_scan": ("drv_scan", "seq", []),
    "drv_cell": ("drv_cell", "seq", []),
    "drv_ndt": ("drv_ndt", "seq", []),
    "drv_matcher": ("drv_matcher", "seq", []),
    "drv_graph": ("drv_graph", "seq", []),
    "drv_bins": ("drv_bins", "seq", []),
    "drv_pf": ("drv_pf", "seq", []),
    "drv_occ": ("drv_occ", "seq", []),
    "drv_graphopt": ("drv_graphopt", "seq", []),
    "drv_mapper": ("drv_mapper", "node", WRAP),
    "drv_world": ("drv_world", "sim", []),
    "drv_start": ("drv_start", "sim", []),
    "drv_tools": ("drv_tools", "py", []),
}
PROPS = {}
NOT_APPLICABLE = {}
TRACE = "TLA+ model checking (TLC) + trace validation of the real code against the specification"
NOTE = ("The design module is checked exhaustively for small constants; the real code is bound to it by validating recorded "
        "executions (all TLC-enumerated histories up to a length, plus seeded random ones) step by step. ")


def prop(pid, drivers, technique=TRACE, note=""):
    def deco(cls):
        PROPS[pid] = dict(drivers=drivers, model=cls.model, code=cls.code, technique=technique, note=NOTE + note)
        return cls
    return deco


@prop("K01", ["drv_scan"], note="Assumes finite inputs; tolerance 1e-9 relative.")
class K01:
    def model(c):
        c.k01 = c.gen("MC_Scan", {"GENLEN": c.q("4", "5")})

    def code(c):
        c.conform("drv_scan", "Tr_Scan", {"in": c.k01, "n": c.q(150, 1500)}, parts=c.q(2, 4))


@prop("K02", ["drv_graphopt"], note="Tolerance 1e-9 relative; covariances with condition up to 1e5.")
class K02:
    def model(c):
        c.mc("MC_PoseGraph", c.q(None, "MC_PoseGraph_thorough.cfg"))

    def code(c):
        c.conform("drv_graphopt", "Tr_PoseGraph", {"mode": "make", "n": c.q(1500, 20000)}, cfg="Tr_PoseGraph_K02.cfg", parts=c.q(2, 6))


@prop("K03", ["drv_graphopt"])
class K03:
    def model(c):
        c.mc("MC_PoseGraph", c.q(None, "MC_PoseGraph_thorough.cfg"))

    def code(c):
        c.conform("drv_graphopt", "Tr_PoseGraph", {"mode": "opt", "n": c.q(80, 600)}, cfg="Tr_PoseGraph_K03.cfg", parts=c.q(4, 6))


@prop("K04", ["drv_graphopt"], note="Optimality is judged (stationarity under moves of 2 mm / 2 mrad, agreement with a fresh optimizer), not proved.")
class K04:
    def model(c):
        c.mc("MC_PoseGraph", c.q(None, "MC_PoseGraph_thorough.cfg"))

    def code(c):
        c.conform("drv_graphopt", "Tr_PoseGraph", {"mode": "opt", "n": c.q(80, 600)}, cfg="Tr_PoseGraph_K04.cfg", parts=c.q(4, 6))


@prop("N01", ["drv_cell"], note="Coordinates up to 1 km (rounding grows with the square of the distance); tolerances stated in Tr_Cell.")
class N01:
    def model(c):
        c.n01 = c.gen("MC_Cell", {"GENLEN": c.q("5", "6")}, cfg=c.q(None, "MC_Cell_thorough.cfg"))

    def code(c):
        c.conform("drv_cell", "Tr_Cell", {"in": c.n01, "n": c.q(200, 3000)}, parts=c.q(4, 6))


@prop("N02", ["drv_ndt"], note="Borders are hit exactly on grids with representable borders and avoided elsewhere; the strip between "
      "the requested extent and the end of the last cell is left open.")
class N02:
    def model(c):
        c.mc("MC_Ndt", c.q(None, "MC_Ndt_thorough.cfg"))

    def code(c):
        c.conform("drv_ndt", "Tr_Ndt", {"n": c.q(120, 1500)}, parts=c.q(4, 6))


def matcher(pid, note=""):
    @prop(pid, ["drv_matcher"], note=note + "All scores of the window are recomputed by the specification (1e-6).")
    class S:
        def model(c):
            c.mc("MC_Matcher", c.q(None, "MC_Matcher_thorough.cfg"))

        def code(c):
            c.conform("drv_matcher", "Tr_Matcher", {"n": c.q(60, 500)}, cfg="Tr_Matcher_%s.cfg" % pid, parts=c.q(7, 7), vtimeout=800)


matcher("S01")
matcher("S02", "Sums of scores between 1e-110 and 1e-90 are left open. ")
matcher("S03")


def graph(pid, only, note=""):
    @prop(pid, ["drv_graph"], note=note)
    class G:
        def model(c):
            c.hist = c.gen("MC_Graph", {"GENLEN": c.q("4", "5")}, cfg=c.q(None, "MC_Graph_thorough.cfg"))

        def code(c):
            c.conform("drv_graph", "Tr_Graph", {"in": c.hist, "n": c.q(150, 1500), "only": only}, cfg="Tr_Graph_%s.cfg" % pid, parts=c.q(4, 7))


graph("G01", "save", "The bag file is a stand-in that keeps what is written and returns it in order of time stamps. ")
graph("G02", "near", "Distances within 1e-9 of the limit, and orders within 1e-9, are left open. Installed nanoflann 1.5 under its 1.4 names. ")
graph("G03", "draw")


@prop("P04", ["drv_bins"], note="Bin indexes within 2^31; borders hit only where they are representable.")
class P04:
    def model(c):
        c.hist = c.gen("MC_Bins", {"GENLEN": c.q("5", "6")}, cfg=c.q(None, "MC_Bins_thorough.cfg"))

    def code(c):
        c.conform("drv_bins", "Tr_Bins", {"in": c.hist, "n": c.q(100, 1500)}, parts=c.q(3, 6))


@prop("P01", ["drv_pf"], note="Proportionality of the draws is tested on 15000 draws at six standard errors. A single occupied bin asks for the maximum. ")
class P01:
    def model(c):
        c.mc("MC_Filter", c.q(None, "MC_Filter_thorough.cfg"))

    def code(c):
        c.conform("drv_pf", "Tr_Filter", {"mode": "filter", "n": c.q(60, 600)}, cfg="Tr_Filter_P01.cfg", parts=c.q(4, 7))
        c.conform("drv_pf", "Tr_Filter", {"mode": "prop", "n": c.q(8, 60)}, cfg="Tr_Filter_P01.cfg", parts=c.q(2, 7))


@prop("P02", ["drv_pf"], note="Measurements whose scores are finite and of one sign. ")
class P02:
    def model(c):
        c.mc("MC_Filter", c.q(None, "MC_Filter_thorough.cfg"))

    def code(c):
        c.conform("drv_pf", "Tr_Filter", {"mode": "filter", "n": c.q(60, 600)}, cfg="Tr_Filter_P02.cfg", parts=c.q(4, 7))


@prop("P03", ["drv_pf"], note="Noise is tested on 4000 particles at six standard errors; the position after moves of up to one centimetre only within that distance. ")
class P03:
    def model(c):
        c.mc("MC_Motion", c.q(None, "MC_Motion_thorough.cfg"))

    def code(c):
        c.conform("drv_pf", "Tr_Motion", {"mode": "motion", "n": c.q(30, 200)}, parts=c.q(5, 7))


@prop("P05", ["drv_pf"], note="Samples of 4000 particles at six standard errors. ")
class P05:
    def model(c):
        c.mc("MC_Filter", c.q(None, "MC_Filter_thorough.cfg"))

    def code(c):
        c.conform("drv_pf", "Tr_Filter", {"mode": "init", "n": c.q(10, 80)}, cfg="Tr_Filter_P05.cfg", parts=c.q(4, 7))


def occ(pid, note):
    @prop(pid, ["drv_occ"], note=note)
    class O:
        def model(c):
            c.mc("MC_OccGrid", c.q(None, "MC_OccGrid_thorough.cfg"))

        def code(c):
            c.conform("drv_occ", "Tr_Occ", {"n": c.q(60, 800)}, cfg="Tr_Occ_%s.cfg" % pid, parts=c.q(4, 7))


occ("O01", "Finite inputs, grids of up to some thousand cells. ")
occ("O02", "Points on borders of cells only where these are representable. ")


# the node with one step done wrong, which model sees it, and how
SLIPS = {
    "M01": [("tie apart", "seq", "M01_WellFormed")],
    "M03": [("no recheck", "loc", "M03_Frozen"), ("disable without lock", "loc", "M03_Frozen"), ("optimise disabled", "loc", "M03_Frozen")],
    "M05": [("pose unpublished", "pub", "M05_Shown"), ("flag cleared after", "pub", "M05_Shown")],
    "M06": [("torn read", "pub", "M06_OnePair")],
    "M07": [("load keeps matcher", "seq", "M07_WholeMap"), ("enable keeps matcher", "seq8", "M07_WholeMap"), ("track corrected later", "loop", "M07_Placed")],
    "M08": [("limit after", "lc", "M08_InOrder")],
    "M10": [("progress survives load", "lc", "M08_InOrder"), ("old map closed", "lc", "M10_OldMapIsGone")],
    "M11": [("no matcher lock", "loc", "M11_NoRace")],
}


def mapper(pid, models, kind="", n=(24, 300), gens="newl filel", note=""):
    @prop(pid, ["drv_mapper"], note=note + "The node runs on stand-ins for ROS and the scan matcher, one thread at a time; preemption at locks, "
          "sleeps, atomics, shared accesses and calls into the stand-ins (sequentially consistent memory). ")
    class M:
        def model(c):
            c.hist = c.path("mapper.txt")
            pick = random.Random("%d %s" % (c.seed, pid))
            with open(c.hist, "w") as f:
                for g in gens.split():
                    h = c.gen("MC_MapperGen", {}, out=g + ".txt", cfg="MC_MapperGen_%s.cfg" % g, workers="1")
                    with open(h) as one:
                        lines = one.readlines()
                    if not c.thorough:      # the thorough tier replays all of them
                        lines = pick.sample(lines, min(len(lines), 700))
                    f.writelines(lines)
            for m in models.split():
                c.mc("MC_Mapper", "MC_Mapper_%s.cfg" % m, workers=3)
            if c.thorough:
                c.mc("MC_Mapper", "MC_Mapper.cfg", workers=7, timeout=3000, mem="12g")
                if pid in ("M05", "M06", "M08", "M11"):
                    c.mc("MC_Mapper", "MC_Mapper_live.cfg", workers=4)
                for s, m, inv in SLIPS.get(pid, []):
                    c.refute("MC_Mapper", "MC_Mapper_%s.cfg" % m, s, inv)

        def code(c):
            a = {"n": c.q(n[0] * 6, n[1] * 6), "in": c.hist}
            if kind:
                a["kind"] = kind
            c.conform("drv_mapper", "Tr_Mapper", a, cfg="Tr_Mapper_%s.cfg" % pid, parts=7)
            if pid == "M11":
                c.conform("drv_mapper", "Tr_Race", {"n": c.q(60, 600), "race": 1}, parts=7)


mapper("M01", "loop seq")
mapper("M02", "seq", gens="neww filew")
mapper("M03", "loc")
mapper("M04", "seq", "cfg,loc,pf", gens="filew pf")
mapper("M05", "pub", gens="newk filek")
mapper("M06", "pub", gens="newk filek")
mapper("M07", "seq loop", "cfg,loc,loop")
mapper("M08", "lc", "loop,loop,cfg")
mapper("M09", "lc", "loop,loop,cfg")
mapper("M10", "lc seq", gens="newl filel pf")
mapper("M11", "loc pf", gens="newl filel pf")
mapper("M12", "seq", gens="filew")
mapper("M13", "pf", "pf", gens="pf")


@prop("T01", ["drv_tools"], note="The tools run unmodified on a stand-in for rclpy with virtual time. ")
class T01:
    def model(c):
        c.hist = c.gen("MC_Tools", {})

    def code(c):
        c.conform("drv_tools", "Tr_Tools", {"in": c.hist, "n": c.q(420, 100000)}, parts=7, timeout=800)


@prop("W01", ["drv_world"], note="Rooms of axis-parallel walls and boxes, noise-free ranges with two percent drop-outs; tolerances in Tr_World. ")
class W01:
    def model(c):
        c.mc("MC_World", c.q(None, "MC_World_thorough.cfg"))
        c.refute("MC_World", "MC_World_far.cfg", "odometry slips further than the matcher reaches", "BeliefIsTrue")

    def code(c):
        c.conform("drv_world", "Tr_World", {"n": c.q(21, 210)}, parts=7)


@prop("I01", ["drv_start"], note="Every one of the configurations, with scripted scan matchers; what happens then is seeded. ")
class I01:
    def model(c):
        c.mc("MC_Start", c.q(None, "MC_Start_thorough.cfg"))
        c.cfgs = c.gen("MC_Start", {})

    def code(c):
        c.conform("drv_start", "Tr_Start", {"in": c.cfgs, "n": c.q(1, 6)}, parts=7, timeout=600)
