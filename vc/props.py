from . import expr, gens as g


def ew(src, e1, e2, es, extra=""):
    return "-DTE1=%s -DTE2=%s -DTES=%s %s" % (e1, e2, es, extra)


PROPS = {}

PROPS["C01"] = dict(
    drivers={
        "vec": dict(tus=[("ew_vec.cpp", ew("", "double", "double", "double", "-DFULL"), 9),
                         ("ew_vec.cpp", ew("", "int", "int", "int"), 4),
                         ("ew_vec.cpp", ew("", "float", "float", "float"), 4),
                         ("ew_vec.cpp", ew("", "double", "int", "float"), 4),
                         ("ew_vec.cpp", ew("", "int", "float", "double"), 4)],
                    gens=[g.with_scaled(g.elem_vec, 0.25)]),
        "mat": dict(tus=[("ew_mat.cpp", ew("", "double", "double", "double", "-DFULL -DLO=%d -DHI=%d" % (k, k + 4)), 10) for k in (0, 4, 8, 12)] +
                        [("ew_mat.cpp", ew("", "double", "int", "float", "-DLO=0 -DHI=6"), 9),
                         ("ew_mat.cpp", ew("", "float", "float", "float", "-DLO=4 -DHI=10"), 9),
                         ("ew_mat.cpp", ew("", "int", "int", "int", "-DLO=10 -DHI=16"), 9)],
                    gens=[g.with_scaled(g.elem_mat, 0.2)]),
    },
    mc=[dict(module="MC_Elem", cfg="MC_Elem.cfg", to="vec", workers=2, env=dict(WHAT="vec")),
        dict(module="MC_Elem", cfg="MC_Elem.cfg", to="mat", workers=2, env=dict(WHAT="mat"))],
)

PROPS["C03"] = dict(
    drivers={"vec": dict(tus=[("prod_vec.cpp", "-DTE1=%s -DTE2=%s" % t) for t in
                              (("double", "double"), ("float", "float"), ("int", "int"), ("int", "double"), ("float", "double"), ("double", "float"), ("double", "int"), ("float", "int"))],
                         gens=[g.with_scaled(g.prod_vec, 0.3)])},
    mc=[dict(module="MC_Vec", cfg="MC_Vec.cfg", to="vec", workers=2),
        dict(module="MC_Scale", cfg="MC_Scale.cfg", workers=2)],
)

PROPS["C04"] = dict(
    drivers={"mat": dict(tus=[("prod_mat.cpp", "-DTE1=%s -DTE2=%s -DLO=%d -DHI=%d" % t) for t in
                              (("double", "double", 0, 4), ("double", "double", 4, 8), ("double", "double", 8, 12), ("double", "double", 12, 16),
                               ("float", "float", 0, 4), ("int", "int", 12, 16), ("int", "double", 8, 12), ("float", "double", 4, 8), ("double", "int", 4, 8))],
                         gens=[g.with_scaled(g.prod_mat, 0.3)])},
    mc=[dict(module="MC_Mat", cfg="MC_Mat.cfg", to="mat", workers=2, env=dict(WHAT="prod"))],
)
PROPS["C10"] = dict(
    drivers={"mat": dict(tus=[("linalg.cpp", "-DTE1=%s -DLO=%d -DHI=%d -DPART=1" % t) for t in
                              (("double", 0, 4), ("double", 4, 8), ("double", 8, 12), ("double", 12, 16), ("float", 0, 8), ("float", 8, 16), ("int", 0, 8), ("int", 8, 16))],
                         gens=[g.with_scaled(g.linalg, 0.4)])},
    mc=[dict(module="MC_Mat", cfg="MC_Mat.cfg", to="mat", workers=2, env=dict(WHAT="inv"))],
)
PROPS["C11"] = dict(
    drivers={"mat": dict(tus=[("linalg.cpp", "-DTE1=%s -DLO=%d -DHI=%d -DPART=2" % t) for t in
                              (("double", 0, 4), ("double", 4, 8), ("double", 8, 12), ("double", 12, 16), ("float", 0, 8), ("float", 8, 16))],
                         gens=[g.with_scaled(g.lu_calls, 0.4)])},
    mc=[dict(module="MC_Mat", cfg="MC_Mat.cfg", to="mat", workers=2, env=dict(WHAT="lu"))],
)
PROPS["C12"] = dict(
    drivers={"quat": dict(tus=[("quat.cpp", "-DTE1=%s -DTE2=%s" % t) for t in
                               (("double", "double"), ("float", "float"), ("int", "int"), ("float", "double"), ("int", "double"), ("double", "int"), ("double", "float"))],
                          gens=[g.with_scaled(g.quat, 0.5)])},
    mc=[dict(module="MC_Quat", cfg="MC_Quat.cfg", to="quat", workers=2)],
)
PROPS["C13"] = dict(
    drivers={"rot": dict(tus=[("rot.cpp", "-DPART=1 -DTE1=%s -DTE2=%s -DLO=%d -DHI=%d" % t) for t in
                              (("double", "double", 0, 4), ("double", "double", 4, 8), ("double", "double", 8, 12), ("double", "double", 12, 16),
                               ("float", "float", 0, 6), ("float", "float", 6, 12), ("float", "double", 10, 16), ("double", "float", 0, 4))],
                         gens=[g.rot_build])},
    mc=[dict(module="MC_Rot", cfg="MC_Rot.cfg", to="rot", workers=3, env=dict(WHAT="build"))],
)
PROPS["C14"] = dict(
    drivers={"rot": dict(tus=[("rot.cpp", "-DPART=2 -DTE1=%s -DTE2=%s -DLO=%d -DHI=%d" % t) for t in
                              (("double", "double", 0, 8), ("double", "double", 8, 16), ("float", "float", 0, 8), ("float", "float", 8, 16), ("float", "double", 4, 6), ("double", "float", 0, 2))],
                         gens=[g.rot_recover])},
    mc=[dict(module="MC_Rot", cfg="MC_Rot.cfg", to="rot", workers=3, env=dict(WHAT="recover"))],
)
PROPS["C15"] = dict(
    drivers={
        "parts": dict(tus=[("trans.cpp", "-DPART=1 -DTE1=%s -DTE2=%s -DLO=%d -DHI=%d" % t, 4) for t in
                           (("double", "double", 0, 3), ("double", "double", 3, 6), ("double", "double", 6, 9), ("double", "double", 9, 12), ("double", "double", 12, 16),
                            ("float", "float", 4, 6), ("float", "double", 0, 2), ("double", "float", 8, 10))],
                      gens=[g.with_scaled(g.trans_parts, 0.3)]),
        "apply": dict(tus=[("trans.cpp", "-DPART=2 -DTE1=%s -DTE2=%s -DLO=%d -DHI=%d" % t, 2) for t in
                           (("double", "double", 0, 8), ("double", "double", 8, 16), ("float", "float", 4, 8), ("double", "float", 0, 2), ("float", "double", 8, 10))],
                      gens=[g.with_scaled(g.trans_apply, 0.5)]),
        "ints": dict(tus=[("trans.cpp", "-DPART=1 -DTE1=int -DTE2=int -DLO=0 -DHI=2", 1)], gens=[g.trans_parts_int]),
        "mixed": dict(tus=[("trans.cpp", "-DPART=1 -DTE1=double -DTE2=int -DLO=4 -DHI=6", 1)], gens=[g.trans_parts_mixed]),
        "apply_ints": dict(tus=[("trans.cpp", "-DPART=2 -DTE1=int -DTE2=int -DLO=4 -DHI=6", 1)], gens=[g.trans_apply_int]),
    },
    mc=[dict(module="MC_Trans", cfg="MC_Trans.cfg", to="parts", workers=2, env=dict(WHAT="parts")),
        dict(module="MC_Trans", cfg="MC_Trans.cfg", to="apply", workers=2, env=dict(WHAT="apply"))],
)
PROPS["C16"] = dict(
    drivers={"proj": dict(tus=[("proj.cpp", "-DTE1=%s -DTE2=%s -DLO=%d -DHI=%d" % t) for t in
                               (("double", "double", 0, 4), ("double", "double", 4, 8), ("double", "double", 8, 12), ("double", "double", 12, 16),
                                ("float", "float", 0, 2), ("float", "float", 4, 6), ("float", "double", 10, 12), ("double", "float", 12, 14))],
                          gens=[g.with_scaled(g.proj, 0.6)])},
    mc=[dict(module="MC_Proj", cfg="MC_Proj.cfg", to="proj")],
)
PROPS["C17"] = dict(
    drivers={"frame": dict(tus=[("frame.cpp", "-DTE1=%s -DTE2=%s -DLO=%d -DHI=%d" % t) for t in
                                (("double", "double", 0, 4), ("double", "double", 4, 8), ("double", "double", 8, 12), ("double", "double", 12, 16),
                                 ("float", "float", 0, 2), ("float", "float", 4, 6), ("double", "float", 0, 2), ("float", "double", 4, 6))],
                           gens=[g.with_scaled(g.frames, 0.6)])},
    mc=[dict(module="MC_Frame", cfg="MC_Frame.cfg", to="frame", workers=2)],
)
PROPS["C18"] = dict(
    drivers={"coord": dict(tus=[("coord.cpp", "-DTE1=%s -DTE2=%s" % t) for t in
                                (("double", "double"), ("float", "float"), ("double", "float"), ("float", "double"))],
                           gens=[g.with_scaled(g.coords, 0.5)])},
    mc=[dict(module="MC_Coord", cfg="MC_Coord.cfg", to="coord", workers=2)],
)
PROPS["C19"] = dict(
    drivers={"scalar": dict(tus=[("scalar.cpp", "-DTE1=%s" % t) for t in ("double", "float", "int")], gens=[g.with_scaled(g.scalars, 0.3)])},
    mc=[dict(module="MC_Scalar", cfg="MC_Scalar.cfg", to="scalar", workers=2)],
)
PROPS["C20"] = dict(
    drivers={n: dict(tus=[("types.cpp", "-DSEL=%d -DLO=%d -DHI=%d" % (k, lo, hi)) for lo, hi in parts], gens=f) for k, n, f, parts in
             ((1, "vec1", [], ((0, 3), (3, 6), (6, 8))), (2, "vec2", [g.types_vec2], ((0, 0),)), (3, "mat", [g.types_mat], ((0, 3), (3, 6), (6, 8))),
              (4, "matvec", [g.types_matvec], ((0, 3), (3, 6), (6, 8))), (5, "quat", [g.types_quat], ((0, 0),)), (6, "names", [], ((0, 0),)))},
    mc=[dict(module="MC_Types", cfg="MC_Types.cfg", to="vec1", workers=2, env=dict(WHAT="pairs")),
        dict(module="MC_Types", cfg="MC_Types.cfg", to="names", workers=2, env=dict(WHAT="names"))],
)
PROPS["C21"] = dict(
    drivers={"rand": dict(tus=[("rand.cpp", "-DTE1=%s -DISF=%d" % t) for t in (("double", 1), ("float", 1), ("int", 0))], gens=[g.rands])},
    mc=[],
)
PROPS["C09"] = dict(
    drivers={"cmp": dict(tus=[("cmp.cpp", "-DTE1=%s -DTE2=%s" % t) for t in
                              (("double", "double"), ("int", "int"), ("float", "float"), ("float", "double"), ("double", "int"), ("int", "float"))], gens=[g.with_scaled(g.cmps, 0.3)])},
    mc=[dict(module="MC_Cmp", cfg="MC_Cmp.cfg", to="cmp")],
)
PROPS["C05"] = dict(
    drivers={"addr": dict(tus=[("addr.cpp", "-DTE1=%s -DTE2=%s -DLO=%d -DHI=%d -DPART=%d" % t) for t in
                               [("double", "int", lo, lo + 4, p) for lo in (0, 4, 8, 12) for p in (0, 1)] + [("int", "double", 8, 12, 0), ("float", "int", 4, 8, 0), ("int", "int", 0, 4, 1), ("float", "float", 12, 16, 1)]],
                          gens=[g.addr])},
    mc=[dict(module="MC_Addr", cfg="MC_Addr.cfg", to="addr")],
)
ASAN = "-O1 -fsanitize=address -fno-omit-frame-pointer"


def store_prop(focus, combos):
    sim = lambda n: ["-simulate", "num=%d" % n, "-depth", "16", "-seed", "@SEED"]
    mc = [dict(module=m, cfg="%s%d.cfg" % (m, focus), to=d, workers=4, extra=sim(n), thorough_extra=sim(n * 20))
          for m, d, n in (("MC_MStore", "mstore", 40), ("MC_Store", "store", 50))]
    mc += [dict(module=m, cfg="%s%d.cfg" % (m, focus), thorough_cfg="%s%dT.cfg" % (m, focus), to=d, workers=3) for m, d in (("MC_MStoreC", "mstore"), ("MC_StoreC", "store"))]
    ex = "MC_MStore" if focus == 7 else "MC_Store"
    mc.append(dict(module=ex, cfg=ex + "X.cfg", thorough_cfg=ex + "XX.cfg", workers=4))
    return dict(
        drivers={"mstore": dict(tus=[("mstore.cpp", "-DTE1=%s -DTE2=%s" % t, 9) for t in combos], flags=ASAN, libs="-fsanitize=address", gens=[g.mhist_shapes]),
                 "store": dict(tus=[("store.cpp", "-DTE1=%s -DTE2=%s" % t, 4) for t in combos], flags=ASAN, libs="-fsanitize=address", gens=[g.vhist_shapes])},
        mc=mc,
    )


PROPS["C06"] = store_prop(6, (("double", "int"), ("int", "double"), ("float", "double")))
PROPS["C07"] = store_prop(7, (("double", "int"), ("int", "double"), ("float", "float")))
PROPS["C08"] = store_prop(8, (("double", "int"), ("int", "double"), ("float", "int")))
PROPS["C08"]["drivers"]["sizes"] = dict(tus=[("sizes.cpp", "-DPART=%d" % k) for k in (1, 2, 3, 4)], flags="-O0 -fsanitize=address", libs="-fsanitize=address", gens=[])
PROPS["C08"]["mc"].append(dict(module="MC_Sizes", cfg="MC_Sizes.cfg", to="sizes", workers=4))
PROPS["C02"] = dict(
    drivers={"expr": dict(tus=[], flags=ASAN, libs="-fsanitize=address", codegen=expr.codegen)},
    mc=[dict(module="MC_Expr1", cfg="MC_Expr1.cfg", to="expr", workers=3, convert=expr.convert),
        dict(module="MC_Expr", cfg="MC_Expr.cfg", to="expr", workers=4, convert=expr.convert, extra=["-simulate", "num=120", "-depth", "60", "-seed", "@SEED"],
             thorough_extra=["-simulate", "num=1500", "-depth", "60", "-seed", "@SEED"])],
)
PROPS["C22"] = dict(
    drivers={"alloc": dict(tus=[("alloc.cpp", "-DTE1=%s -DTE2=%s" % t, 4) for t in (("double", "int"), ("int", "double"), ("float", "float"))], flags=ASAN, libs="-fsanitize=address", gens=[])},
    mc=[dict(module="MC_Alloc", cfg="MC_Alloc.cfg", to="alloc", workers=4, extra=["-simulate", "num=150", "-depth", "16", "-seed", "@SEED"],
             thorough_extra=["-simulate", "num=3000", "-depth", "16", "-seed", "@SEED"]),
        dict(module="MC_Alloc", cfg="MC_AllocPick.cfg", to="alloc", workers=1)],
)
