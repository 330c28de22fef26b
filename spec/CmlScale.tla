------------------------------ MODULE CmlScale ------------------------------
(* Scaled calls.  A field f of a call may be scaled by 2^sc_f; powers of    *)
(* two are exact in binary floating point, so the outcome is that of the    *)
(* unscaled call, each output scaled by the power its degree of homogeneity *)
(* gives.  The outputs are logged after division by 2^lg (one exponent for  *)
(* every output, or one for each), and are then accepted exactly as those   *)
(* of the unscaled call: no magnitude of the operands is special.           *)
EXTENDS CmlExpr

ScName == [a |-> "sc_a", b |-> "sc_b", c |-> "sc_c", p |-> "sc_p", h |-> "sc_h", u |-> "sc_u", t |-> "sc_t", x |-> "sc_x", y |-> "sc_y", z |-> "sc_z",
           n |-> "sc_n", v |-> "sc_v", s |-> "sc_s"]
Sc(e, f) == IF ScName[f] \in DOMAIN e THEN e[ScName[f]] ELSE 0
Scaled(e) == {f \in DOMAIN ScName : Sc(e, f) # 0}
Tie(e, F) == \A f \in F : \A g \in F : Sc(e, f) = Sc(e, g)

\* fields that may be scaled, and together
Sum1 == {"lensq", "length", "normalize", "subvector", "perp", "transpose", "trace", "trace22", "trace33",
         "qneg", "qconj", "qinv", "qnorm", "qlen", "qnormalize", "qparts", "qbuild", "vneg", "mneg", "tget", "bget", "tpt4",
         "ssign", "sclamp", "swrap", "sinrange", "spow", "slen", "sbest", "ssqrt", "smap"}
Tied2 == {"manhattan", "qadd", "qsub", "vadd", "vsub", "madd", "msub", "vpm", "mpm", "vcmp", "vhash", "mcmp", "qcmp", "tset", "bset"}
Pair2 == {"dot", "perp_dot", "cross", "outer", "mm", "mv", "qmul", "qdot", "projv", "concat", "tvec", "tvec4", "vhad", "mhad", "uang"}
ByScalar == {"vmuls", "vdivs", "mmuls", "mdivs", "vin", "min", "qscale"}
Free(e) == CASE e.op \in Sum1 -> Scaled(e) \subseteq {"a"}
             [] e.op \in Tied2 -> Scaled(e) \subseteq {"a", "b"} /\ Tie(e, {"a", "b"})
             [] e.op \in Pair2 -> Scaled(e) \subseteq {"a", "b"}
             [] e.op \in {"triple", "qmul3", "sang"} -> Scaled(e) \subseteq {"a", "b", "c"}
             [] e.op \in ByScalar -> Scaled(e) \subseteq {"a", "s"} /\ (e.op \in {"vin", "min", "qscale"} => e.which \in {0, 1})
             [] e.op = "projh" -> Scaled(e) \subseteq {"a"}
             [] e.op \in {"skew", "rotv", "cpolar", "ccyl", "csph", "lusolve"} -> Scaled(e) \subseteq {"b"} /\ (e.op \in {"cpolar", "ccyl", "csph"} => e.tol = 0 /\ Sc(e, "b") > 0)
             [] e.op \in {"polar", "sph"} -> Scaled(e) \subseteq {"p"}
             [] e.op = "cyl" -> Scaled(e) \subseteq {"p", "h"} /\ Tie(e, {"p", "h"})
             [] e.op = "look" -> Scaled(e) \subseteq {"u"}
             [] e.op = "bsets" -> Scaled(e) \subseteq {"a", "x", "y", "z"} /\ Tie(e, {"a", "x", "y", "z"})
             [] e.op = "frame3" -> Scaled(e) \subseteq (IF e.norm = 1 THEN {"b", "c"} ELSE {"c"})
             [] e.op = "frame2" -> e.norm = 1 /\ Scaled(e) \subseteq {"b"}
             [] e.op \in {"ortho", "persp"} -> Scaled(e) \subseteq {"n"}
             [] e.op \in {"planes", "planesraw", "nearp"} -> Scaled(e) \subseteq {"n", "v"} /\ Tie(e, {"n", "v"})
             [] OTHER -> FALSE

\* exponents of the outputs
DegAll(e) ==
  LET a == Sc(e, "a")  b == Sc(e, "b")  c == Sc(e, "c")  n == Sc(e, "n") IN
  CASE e.op \in {"normalize", "qnormalize", "tpt4", "ssign", "sinrange", "sbest", "vcmp", "vhash", "mcmp", "qcmp", "uang", "sang", "frame2", "frame3", "look"} -> <<0>>
    [] e.op = "qinv" -> <<-a>>
    [] e.op \in {"lensq", "qnorm"} -> <<2 * a>>
    [] e.op = "spow" -> <<2 * a, 3 * a>>
    [] e.op = "slen" -> <<2 * a, a>>
    \* the root of a/den, and its reciprocal
    [] e.op = "ssqrt" -> <<a \div 2, -(a \div 2)>>
    [] e.op \in {"vmuls", "mmuls"} \/ (e.op \in {"vin", "min", "qscale"} /\ e.which = 0) -> <<a + Sc(e, "s")>>
    [] e.op \in {"vdivs", "mdivs"} \/ (e.op \in {"vin", "min", "qscale"} /\ e.which = 1) -> <<a - Sc(e, "s")>>
    [] e.op \in Sum1 \cup Tied2 -> <<a>>
    [] e.op \in {"projv", "projh"} -> <<a>>
    [] e.op \in Pair2 -> <<a + b>>
    [] e.op \in {"triple", "qmul3"} -> <<a + b + c>>
    [] e.op \in {"skew", "rotv", "lusolve"} -> <<b>>
    [] e.op \in {"polar", "sph", "cyl"} -> <<Sc(e, "p")>>
    [] e.op = "bsets" -> <<a>>
    \* length, height, then angles
    [] e.op = "cpolar" -> <<b, 0, 0, 0>>
    [] e.op = "ccyl" -> <<b, b, 0, 0, 0>>
    [] e.op = "csph" -> <<b, 0, 0, 0, 0, 0, 0>>
    [] e.op = "ortho" -> [x \in 1..16 |-> IF x \in {1, 6, 11} THEN -n ELSE 0]
    [] e.op = "persp" -> [x \in 1..16 |-> IF x = 12 THEN n ELSE 0]
    [] e.op = "planes" -> [x \in 1..24 |-> IF x % 4 = 0 THEN n ELSE 0]
    [] e.op = "planesraw" -> [x \in 1..24 |-> (IF e.persp = 1 THEN 0 ELSE -n) + (IF x % 4 = 0 THEN n ELSE 0)]
    [] e.op = "nearp" -> [x \in 1..4 |-> (IF e.persp = 1 THEN 0 ELSE -n) + (IF x = 4 THEN n ELSE 0)]
ScalePre(e) == IF "lg" \in DOMAIN e THEN Free(e) /\ e.lg = DegAll(e) /\ (e.op = "ssqrt" => Sc(e, "a") % 2 = 0) ELSE Scaled(e) = {}
=============================================================================
