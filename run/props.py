"""What each check runs: TLC jobs (mc = exhaustive, sim = seeded simulation)."""

ASSUMPTIONS = [
    "TLC evaluates the specification correctly; the Java overrides of Rat and Bspline.Blossom agree with their TLA+ definitions (compared by check C29 on sampled operands)",
    "the implementation is instantiated at f64; comparisons are relative, 1e-8 unless stated otherwise",
]


def S(*ops):
    return "<<" + ", ".join('"%s"' % o for o in ops) + ">>"


def Q(*xs):
    return "{" + ", ".join('"%s"' % x for x in xs) + "}"


CURVE_INVS = ["ValidInv", "ShapeInv"]
ALL_KINDS = Q("simple", "full", "unclamped", "unclamped2", "shifted")


def curve_mc(last, first=None, degs="{1, 2, 3}", spans="{1, 2, 3}", rats="{TRUE, FALSE}", dims="{2, 3}", **kw):
    return dict(kind="mc", module="MCCurve", init="MInit", next="MNext",
                consts={"MaxOps": 2 if first else 1, "Degs": degs, "SpanCounts": spans, "Kinds": kw.pop("kinds", ALL_KINDS),
                        "Rats": rats, "Dims": dims, "FirstOps": Q(*first) if first else "{}", "LastOps": Q(*last)},
                invs=CURVE_INVS + ["Emit"], **kw)


def curve_sim(ops, num, maxdeg=4, unclamped="FALSE", maxops=6, **kw):
    return dict(kind="sim", module="GenCurve", init="GInit", next="GNext",
                consts={"MaxOps": maxops, "MaxDeg": maxdeg, "ForceUnclamped": unclamped}, defs={"Ops": S(*ops)},
                invs=CURVE_INVS, num=num, depth=100, **kw)


def curve_prop(own, mix, mc_first=None, floor=None, deg=4, num=2400):
    """own: the property's operations; mix: what happens before"""
    weighted = list(own) * max(1, len(mix) // len(own)) + list(mix)
    mc1 = curve_mc(own)
    q = [mc1]
    t = [curve_mc(own, degs="{1, 2, 3, 4, 5}", spans="{1, 2, 3, 4}")]
    if mc_first:
        q.append(curve_mc(own, first=mc_first, degs="{1, 2, 3}", spans="{2}", rats="{TRUE}", dims="{2}", kinds=Q("simple", "unclamped")))
        t.append(curve_mc(own, first=mc_first, degs="{1, 2, 3, 4}", spans="{1, 2}", dims="{2}", timeout=500))
    q += [curve_sim(weighted, num, deg), curve_sim(weighted, num // 4, deg, unclamped="TRUE")]
    t += [curve_sim(weighted, 30000, deg + 1, maxops=8, timeout=300), curve_sim(weighted, 10000, deg, unclamped="TRUE", timeout=150)]
    return dict(quick=q, thorough=t, floor=floor or {})


def surf_mc(last, first=None, degs="{1, 2, 3}", spans="{1, 2}", kinds=Q("simple", "full", "unclamped"), rats="{TRUE}", **kw):
    return dict(kind="mc", module="MCSurface", init="MInit", next="MNext",
                consts={"MaxOps": 0 if not last else 2 if first else 1, "Degs": degs, "SpanCounts": spans, "Kinds": kinds, "Rats": rats,
                        "FirstOps": Q(*first) if first else "{}", "LastOps": Q(*last) if last else "{}"},
                invs=["ValidInv", "ShapeInv", "Emit"], **kw)


def surf_sim(ops, num, maxdeg=3, maxops=4, **kw):
    return dict(kind="sim", module="GenSurface", init="GInit", next="GNext", consts={"MaxOps": maxops, "MaxDeg": maxdeg},
                defs={"Ops": S(*ops)}, invs=["ValidInv", "ShapeInv"], num=num, depth=100, **kw)


LEN_OPS = ["insert", "refine", "elevate", "split", "trim", "reverse", "normalize", "lift", "clamp", "transform"]
LEN_INVS = ["ValidInv", "ChordInv", "DomainInv"]


def len_sim(num, ops, **kw):
    return sim("GenLength", {"MaxOps": ops}, num, {"Ops": S(*LEN_OPS)}, LEN_INVS, **kw)


def near_sim(num, deg, ops, unclamped="FALSE", **kw):
    return sim("GenClosest", {"MaxOps": ops, "MaxDeg": deg, "Queries": 6, "Fine": 16, "ForceUnclamped": unclamped}, num, {"Ops": S(*LEN_OPS)},
               ["ValidInv", "AnswerInv"], init="QInit", nxt="QNext", **kw)


def nearest_sim(num, deg=3, ops=1, fine=5, **kw):
    return sim("GenNearest", {"MaxOps": ops, "MaxDeg": deg, "Queries": 6, "Fine": fine}, num, {"Ops": S("refine", "split", "flip", "transform")},
               ["ValidInv", "NetInv", "RoundInv"], init="NInit", nxt="NNext", **{"depth": 40, **kw})


def pierce_sim(num, deg=2, ops=1, maxdeg=3, **kw):
    return sim("GenPierce", {"MaxOps": ops, "MaxDeg": maxdeg, "SurfDeg": deg, "ForceUnclamped": "FALSE"}, num,
               {"Ops": S("insert", "refine", "elevate", "reverse", "transform"), "Sorts": S("graph", "graph", "ball", "cone", "torus", "lifted")},
               ["ValidInv", "HitInv", "FormInv", "FarInv"], init="PInit", nxt="PNext", **kw)


CROSS_INVS = ["ValidInv", "CrossInv", "BothInv", "FarInv"]


def cross_sim(num, deg, ops, unclamped="FALSE", **kw):
    return sim("GenCross", {"MaxOps": ops, "MaxDeg": deg, "ForceUnclamped": unclamped}, num,
               {"Ops": S("insert", "refine", "elevate", "split", "trim", "reverse", "transform")}, CROSS_INVS, init="XInit", nxt="XNext", **kw)


def inside_sim(num, ops, queries, **kw):
    return sim("GenInside", {"MaxOps": ops, "MaxDeg": 3, "ForceUnclamped": "FALSE", "Queries": queries}, num,
               {"Ops": S("insert", "insert", "refine", "refine", "elevate", "elevate", "reverse", "reverse", "transform", "transform", "normalize", "clamp", "split")},
               ["ValidInv", "CentreInv", "FarInv", "RayInv"], init="IInit", nxt="INext", **kw)


def region_sim(num, steps, holes, probes, deg=3, **kw):
    return sim("GenRegion", {"MaxOps": 0, "MaxDeg": deg, "ForceUnclamped": "FALSE", "MaxSteps": steps, "MaxHoles": holes, "Probes": probes}, num,
               {"Ops": S("insert")}, ["EvenInv", "SetInv"], init="RInit", nxt="RNext", **{"depth": 140, **kw})


def chain_sim(num, steps=3, deg=3, pieces=5, **kw):
    return sim("GenCompound", {"MaxOps": 1, "MaxDeg": deg, "ForceUnclamped": "FALSE", "MaxSteps": steps, "MaxPieces": pieces}, num,
               {"Ops": S("insert", "refine", "elevate", "reverse", "clamp")}, ["ValidInv", "JoinInv", "KeepInv", "StartInv"], init="KInit", nxt="KNext", **{"depth": 130, **kw})


def made_sim(num, kinds, deg=3, sections=5, ops=1, **kw):
    return sim("GenConstruct", {"MaxOps": ops, "MaxDeg": deg, "ForceUnclamped": "FALSE", "MaxSections": sections}, num,
               {"Ops": S("insert", "refine", "elevate", "reverse", "transform"), "Kinds": S(*kinds)}, ["ValidInv", "CompatInv", "CarryInv"],
               init="CInit", nxt="CNext", **{"depth": 60, **kw})


def mesh_sim(num, deg=3, spans=3, depth=3, ops=1, **kw):
    return sim("GenMesh", {"MaxOps": ops, "MaxDeg": deg, "MaxSpans": spans, "MaxDepth": depth}, num,
               {"Ops": S("refine", "flip", "invert", "transform"), "Sorts": S("spline", "bumps", "bumps", "bumps", "ball", "cone", "torus")},
               ["MarksInv"], init="MInit", nxt="MNext", **kw)


def adapt_mc(nu, nv, depth, lists, **kw):
    return mc("Adapt", {"NU": nu, "NV": nv, "Depth": depth, "Lists": Q(*lists), "Guarded": "TRUE"}, {}, ["TilingInv", "SidesInv"],
              init="AInit", nxt="ANext", emit=False, **kw)


def wire_mc(kinds, faults, **kw):
    return mc("Wire", {"MaxFaults": faults}, {"Kinds": kinds}, ["OrderInv", "FaultInv", "KeepInv", "Emit"], init="WInit", nxt="WNext", **kw)


def knot_mc(lens, x, **kw):
    return mc("MCKnots", {"MaxDeg": 3, "MaxLen": 12, "MaxSteps": 1, "Lens": lens, "MaxX": x}, {}, ["SortInv", "CountInv", "BackInv", "SpanInv", "Emit"],
              init="KInit", nxt="MNext", **kw)


def knot_sim(num, deg=4, length=12, steps=3, **kw):
    return sim("GenKnots", {"MaxDeg": deg, "MaxLen": length, "MaxSteps": steps}, num, {},
               ["SortInv", "CountInv", "BackInv", "BasisInv", "SpanInv"], init="KInit", nxt="KNext", **kw)


def line_sim(num, deg=4, ops=2, **kw):
    return sim("GenPolyline", {"MaxOps": ops, "MaxDeg": deg, "ForceUnclamped": "FALSE"}, num,
               {"Ops": S("insert", "refine", "elevate", "reverse", "split", "trim", "clamp")}, ["ValidInv", "ShapeInv"], init="PInit", nxt="PNext", **{"depth": 60, **kw})


def line_mc(pieces, degs, tols, **kw):
    return mc("MCPolyline", {"MaxPieces": pieces, "Degs": degs}, {"Tols": tols}, ["HeldInv", "NeedInv", "EndInv", "LineInv"], init="PInit", nxt="PNext", emit=False, **kw)


def polygon_mc(corners, x, **kw):
    return mc("MCPolygon", {"MaxX": x}, {"Corners_": corners}, ["StartInv", "TurnInv", "FanInv", "Emit"], init="PInit", nxt="PNext", **kw)


def polygon_sim(num, length, **kw):
    return sim("GenPolygon", {"MaxLen": length}, num, {}, ["StartInv", "TurnInv", "FanInv"], init="PInit", nxt="PNext", **kw)


def spec_mc(n, d, **kw):
    return mc("SpecTest", {"MaxN": n, "MaxD": d}, {}, ["RatInv", "VecInv", "RootInv", "FieldInv", "PolarInv", "BernInv"],
              init="SInit", nxt="SNext", emit=False, **kw)


def trim_sim(num, deg=3, holes=2, steps=2, **kw):
    return sim("GenTrim", {"MaxOps": 0, "MaxDeg": deg, "ForceUnclamped": "FALSE", "MaxHoles": holes, "MaxSteps": steps}, num,
               {"Ops": S("insert"), "Sorts": S("flat", "flat", "graph", "graph", "ball", "cone", "torus", "region", "region"),
                "Ways": S("plain", "adaptive", "adaptive")}, ["KeepInv", "RoomInv"], init="TInit", nxt="TNext", **{"depth": 60, **kw})


def moved_sim(num, deg=3, holes=3, moves=3, **kw):
    return sim("GenMoved", {"MaxOps": 0, "MaxDeg": deg, "ForceUnclamped": "FALSE", "MaxHoles": holes, "MaxSteps": 0, "MaxMoves": moves}, num,
               {"Ops": S("insert"), "Sorts": S("region"), "Ways": S("plain")}, ["ProductInv", "SurviveInv"], init="MInit", nxt="MNext", **{"depth": 40, **kw})


def box_sim(num, deg=2, ops=1, maxdeg=3, kinds=("algebra", "hull", "tree", "meet", "meet", "mesh"), unclamped="FALSE", **kw):
    return sim("GenBox", {"MaxOps": ops, "MaxDeg": maxdeg, "SurfDeg": deg, "ForceUnclamped": unclamped}, num,
               {"Ops": S("insert", "refine", "elevate", "reverse", "transform", "split", "clamp"), "Kinds": S(*kinds)},
               ["ValidInv", "HullInv", "NestInv", "SharedInv"], init="BInit", nxt="BNext", **kw)


def box_mc(x, dims, **kw):
    return mc("MCBox", {"MaxX": x, "Dims": dims}, {}, ["MeetInv", "CornerInv", "Emit"], init="BInit", nxt="BNext", **kw)


MADE = {"module": "JudgeConstruct", "verdict": "MadeVerdict"}


SMIX = ["refine", "split", "flip", "iso", "invert", "boundary", "transform"]


def surf_prop(own, quick_mc, floor):
    weighted = list(own) * max(1, len(SMIX) // len(own)) + SMIX
    return dict(quick=[quick_mc, surf_sim(weighted, 500)],
                thorough=[dict(quick_mc, consts={**quick_mc["consts"], "SpanCounts": "{1, 2, 3}", "Rats": "{TRUE, FALSE}"}, timeout=500),
                          surf_sim(weighted, 12000, maxdeg=4, maxops=6, timeout=300)], floor=floor)


def mc(module, consts, defs=None, invs=("Emit",), init="MInit", nxt="MNext", **kw):
    return dict(kind="mc", module=module, init=init, next=nxt, consts=consts, defs=defs or {}, invs=list(invs), **kw)


def sim(module, consts, num, defs=None, invs=(), init="GInit", nxt="GNext", **kw):
    return dict(kind="sim", module=module, init=init, next=nxt, consts=consts, defs=defs or {}, invs=list(invs), num=num, **{"depth": 100, **kw})


MIX = ["insert", "refine", "elevate", "split", "trim", "reverse", "transform"]
PROPS = {
    "C01": curve_prop(["reverse"], MIX + ["normalize", "lift"], floor={"comparisons": 50000}, deg=5),
    "C02": curve_prop(["insert", "refine"], MIX, mc_first=["insert", "reverse"], floor={"op:insert": 500, "op:refine": 500}),
    "C03": curve_prop(["remove"], ["insert", "refine", "elevate", "reverse"], mc_first=["insert", "refine", "elevate"], floor={"removals": 300, "refusals": 300}),
    "C04": curve_prop(["elevate"], ["insert", "refine", "reverse", "split", "remove"], mc_first=["refine", "insert"], floor={"op:elevate": 500}),
    "C05": curve_prop(["split", "trim", "trimwrap"], MIX, floor={"op:split": 500, "op:trim": 500, "op:trimwrap": 300}),
    "C06": curve_prop(["reverse", "normalize", "lift", "cast"], MIX, mc_first=["reverse", "split"], floor={"op:reverse": 200, "op:lift": 100, "op:cast": 100, "op:normalize": 50}),
    "C07": curve_prop(["clamp", "bezier"], ["insert", "refine", "reverse", "split", "transform"], mc_first=["insert", "reverse"], floor={"op:clamp": 300, "op:bezier": 300}),
    "C08": curve_prop(["transform"], ["insert", "refine", "reverse", "lift"], floor={"op:transform": 1000}, num=1000),
    "C09": dict(quick=[mc("MCInterp", {"MaxLen": 4, "Degs": "{1, 2, 3}"}, {"Pool": "Pool2"}, ["PassInv", "Emit"], init="Init"),
                       mc("MCInterp", {"MaxLen": 3, "Degs": "{1, 2}"}, {"Pool": "Pool3"}, ["PassInv", "Emit"], init="Init"),
                       sim("GenInterp", {"MaxLen": 8, "Degs": "{1, 2, 3, 4, 5}"}, 2000, invs=["PassInv"])],
                thorough=[mc("MCInterp", {"MaxLen": 5, "Degs": "{1, 2, 3, 4}"}, {"Pool": "Pool2"}, ["PassInv", "Emit"], init="Init"),
                          mc("MCInterp", {"MaxLen": 5, "Degs": "{1, 2, 3, 4}"}, {"Pool": "Pool3"}, ["PassInv", "Emit"], init="Init"),
                          sim("GenInterp", {"MaxLen": 12, "Degs": "{1, 2, 3, 4, 5, 6}"}, 20000, invs=["PassInv"], timeout=300)],
                floor={"made:open": 300, "made:periodic-i": 300, "made:periodic": 200, "made:polyline": 100, "seams": 300}),
    "C10": dict(quick=[len_sim(3000, 3)], thorough=[len_sim(30000, 5, timeout=400)],
                floor={"lengths": 4000, "parameters": 10000, "divisions": 20000, "unclamped": 500}),
    "C11": dict(quick=[near_sim(2400, 3, 2)], thorough=[near_sim(24000, 4, 4, timeout=500), near_sim(8000, 3, 2, unclamped="TRUE", timeout=300)],
                floor={"zoom:size": 600, "zoom:pace": 600, **{"query:" + k: 500 for k in ("on", "normal", "end", "break", "control", "any")}}),
    "C12": dict(quick=[sim("GenConic", {}, 4000, invs=["ExactInv"])], thorough=[sim("GenConic", {}, 40000, invs=["ExactInv"], timeout=300)],
                trace={"module": "JudgeConic", "verdict": "ConicVerdict", "floor": 3000},
                floor={"made:arc": 500, "made:ellipse-arc": 500, "made:circle": 200, "made:ellipse": 200, "made:refused": 200}),
    "C13": dict(quick=[cross_sim(3600, 3, 2)], thorough=[cross_sim(36000, 4, 4, timeout=600), cross_sim(8000, 3, 3, unclamped="TRUE", timeout=300)],
                floor={"asked": 5000, "crossings": 1500, "compounds": 1500, "zoom:size": 600, "zoom:pace": 600, **{"pair:" + k: 150 for k in ("spline", "polyline", "round", "through", "apart")}}),
    "C14": dict(quick=[inside_sim(2000, 2, 10)], thorough=[inside_sim(24000, 4, 20, timeout=600)],
                floor={"inside": 3000, "outside": 3000, "query:vertex": 500, "query:on": 500, "query:level": 2000, "compounds": 5000, "refusals": 300, "zoom:size": 300, "zoom:pace": 300}),
    "C15": dict(quick=[region_sim(1600, 1, 0, 32)], thorough=[region_sim(16000, 1, 0, 64, deg=4, timeout=600)],
                floor={"operations": 10000, "probes": 200000, "zoom:size": 400, "zoom:pace": 400, "with crossings": 600, "without crossings": 200}),
    "C16": dict(quick=[region_sim(600, 2, 2, 32), region_sim(240, 1, 0, 32)], thorough=[region_sim(5000, 2, 3, 48, timeout=400), region_sim(4000, 3, 2, 48, depth=200, timeout=400)],
                floor={"operations": 2000, "probes": 50000, "zoom:size": 200, "zoom:pace": 200, "holes": 800, "step:2": 400}),
    "C17": dict(quick=[chain_sim(1600)], thorough=[chain_sim(16000, steps=6, deg=4, pieces=7, depth=200, timeout=600)],
                floor={"points": 100000, "lengths": 1500, "queries": 2000, "chain:closed": 300, "chain:open": 300, **{"chain:" + k: 250 for k in ("reverse", "trim", "trimwrap", "transform")}}),
    "C18": surf_prop(["refine"], surf_mc([]), {"comparisons": 50000}),
    "C19": surf_prop(["refine", "split", "flip", "iso", "invert", "boundary", "cast"],
                     surf_mc(["refine", "split", "flip", "iso", "invert", "boundary", "cast"], degs="{1, 2}", kinds=Q("simple", "full")),
                     {"sop:iso": 200, "sop:split": 200, "sop:refine": 200, "sop:flip": 50}),
    "C20": dict(quick=[made_sim(2000, ["extrude", "loft", "loft"])], thorough=[made_sim(20000, ["extrude", "loft", "loft"], deg=4, sections=8, ops=3, timeout=500)],
                floor={"made:extrude": 400, "made:loft": 900, "points": 60000}),
    "C21": dict(quick=[made_sim(2000, ["revolve", "revolve", "sphere", "sweep", "plane"])],
                thorough=[made_sim(16000, ["revolve", "revolve", "sphere", "sweep", "plane"], deg=4, ops=3, timeout=500)],
                trace={**MADE, "floor": 1200}, floor={"made:revolve": 600, "made:sphere": 300, "made:sweep": 200, "made:plane": 300}),
    "C22": dict(quick=[nearest_sim(1600)], thorough=[nearest_sim(16000, deg=4, ops=3, fine=7, timeout=600)],
                floor={"zoom:size": 400, "zoom:pace": 400, **{"query:" + k: 400 for k in ("on", "normal", "edge", "corner", "control", "any", "sphere", "tube", "torus")}}),
    "C23": dict(quick=[pierce_sim(2000)], thorough=[pierce_sim(10000, deg=3, ops=3, maxdeg=4, timeout=600)],
                floor={"crossings": 900, "zoom:size": 300, "zoom:pace": 300, **{"surface:" + k: 100 for k in ("graph", "ball", "cone", "torus", "lifted")},
                       **{"curve:" + k: 100 for k in ("spline", "aimed", "woven", "ring", "apart")}}),
    "C24": dict(quick=[adapt_mc(2, 1, 2, ["none", "ends"]), adapt_mc(2, 2, 1, ["none", "ends", "all"]), mesh_sim(800)],
                thorough=[adapt_mc(2, 1, 2, ["none", "ends", "all"]), adapt_mc(3, 2, 1, ["none", "some"]), adapt_mc(2, 2, 2, ["none"], timeout=500),
                          mesh_sim(5000, deg=4, spans=4, depth=4, ops=3, timeout=500)],
                trace={"module": "JudgeMesh", "verdict": "MeshVerdict", "floor": 750},
                floor={"way:" + k: n for k, n in (("adaptive", 300), ("plain", 40), ("regular", 40))} | {"constrained": 120, "triangles": 100000, "rough edges": 500, "zoom:size": 200, "zoom:pace": 200}),
    "C25": dict(quick=[trim_sim(640)], thorough=[trim_sim(5000, holes=4, steps=4, deg=4, timeout=500)],
                trace={"module": "JudgeTrim", "verdict": "TrimVerdict", "floor": 600},
                floor={"triangles": 100000, "holes": 200, "constrained": 40, "implicitly closed": 20, "from:projected": 30, "from:mapped": 5,
                       **{"base:" + k: 40 for k in ("flat", "graph", "ball", "cone", "torus", "region")}, **{"step:" + k: 100 for k in ("invert", "transform")}}),
    "C26": dict(quick=[box_mc(2, "{2}"), box_sim(2400)], thorough=[box_mc(3, "{2}"), box_mc(1, "{3}"), box_sim(20000, deg=3, ops=4, maxdeg=5, timeout=500)],
                trace={"module": "JudgeBox", "verdict": "BoxVerdict", "floor": 1000},
                floor={"comparisons": 10000, "points": 5000, "leaves": 8000, "pairs": 15000, "meshes": 500,
                       **{"made:" + k: 60 for k in ("algebra", "mesh", "hull:curve", "hull:compound", "hull:surface", "tree:curve", "tree:surface", "meet:curve", "meet:surface")}}),
    "C28": dict(quick=[made_sim(4000, ["frames"], ops=2)], thorough=[made_sim(40000, ["frames"], deg=5, ops=4, timeout=500)],
                trace={**MADE, "floor": 3000}, floor={"made:frames": 3000}),
    "C27": curve_prop(["serde"], MIX, mc_first=["reverse", "lift"], floor={"op:serde": 500}, num=1000),
    "C29": curve_prop(["clamp"], MIX, floor={"kop:new": 2500, "kop:add": 2500, "kop:uniform": 200, "kop:invert": 300, "kop:cast": 100,
                                             "queries": 200000, "bases": 30000, "even": 3000}, num=1200),
    "C30": dict(quick=[line_mc(16, "{1, 2, 3}", "{RQ(1, 4), One}"), line_sim(2400), chain_sim(1000, steps=2, pieces=4), polygon_mc("{3, 4}", 2), polygon_sim(1600, 9)],
                thorough=[line_mc(40, "{1, 2, 3}", "{RQ(1, 64), RQ(1, 4), One}", timeout=400), line_sim(20000, deg=5, ops=4, timeout=400), chain_sim(8000, steps=4, deg=4, pieces=6, depth=200, timeout=400),
                          polygon_mc("{3, 4, 5}", 2, timeout=900), polygon_sim(16000, 16, timeout=300)],
                trace={"module": "JudgePolyline", "verdict": "PolyVerdict", "floor": 2500},
                floor={"drawn:curve": 1500, "drawn:chain": 600, "drawn:line": 300, "vertices": 20000, "polygons": 2500, "inside": 30000, "outside": 100000}),
}
for p, op in (("C08", "transform"), ("C27", "serde")):
    PROPS[p]["quick"].append(surf_sim([op, op] + SMIX, 200))
    PROPS[p]["thorough"].append(surf_sim([op, op] + SMIX, 4000, maxdeg=4, timeout=200))
    PROPS[p]["floor"]["sop:" + op] = 50
    PROPS[p]["quick"].append(chain_sim(200))
    PROPS[p]["thorough"].append(chain_sim(4000, timeout=150))
    PROPS[p]["floor"]["chain:" + op] = 20

PROPS["C27"]["quick"] += [wire_mc('{"curve", "surface", "compound", "region", "trimmed"}', 1), wire_mc('{"curve", "compound", "region", "trimmed"}', 2), trim_sim(160)]
PROPS["C27"]["thorough"] += [wire_mc('{"surface"}', 2, timeout=400), wire_mc('{"curve", "compound", "region", "trimmed"}', 3, timeout=400), trim_sim(3000, holes=3, steps=4, timeout=300)]
PROPS["C27"]["floor"].update({"wire:%s" % k: n for k, n in (("curve", 3000), ("surface", 6000), ("compound", 80), ("region", 600), ("trimmed", 5000))},
                             accepted=200, refused=15000, **{"written:trimmed": 200, "written:region": 80})
PROPS["C08"]["quick"] += [moved_sim(240), trim_sim(160)]
PROPS["C08"]["thorough"] += [moved_sim(4000, deg=4, holes=4, moves=6, timeout=300), trim_sim(3000, holes=3, steps=5, timeout=300)]
PROPS["C08"]["floor"].update({"region:transform": 300, "trimmed:transform": 50})
PROPS["C17"]["quick"].append(moved_sim(160))
PROPS["C17"]["thorough"].append(moved_sim(4000, deg=4, holes=4, moves=6, timeout=300))
PROPS["C17"]["floor"]["region:invert"] = 100
PROPS["C29"]["quick"] += [knot_mc("{3, 4, 5, 6, 7}", 3), knot_sim(640), spec_mc(4, 3)]
PROPS["C29"]["thorough"] += [knot_mc("{3, 4, 5, 6, 7, 8, 9}", 4, timeout=600), knot_sim(12000, deg=5, length=16, steps=5, timeout=400), spec_mc(9, 7, timeout=400)]

TECHNIQUE = "TLA+ specification checked with TLC; conformance by replaying its behaviours through the code"
NOTE = ("TLC explores every operation and argument from a catalogue of curves exhaustively (within the constants in the evidence) and "
        "random histories beyond it; every step's exact expected state is compared with the code's. Bounded: not a proof for all curves.")
HOOKS = None
NOT_APPLICABLE = {}
