------------------------------- MODULE CmlProj ------------------------------
(* Projections and view volumes.  The volume is bounded by l, r, b, t (on   *)
(* the near plane of a perspective volume) and n, f; s is +1 for a          *)
(* left-handed volume (looking along +z) and -1 for a right-handed one.     *)
EXTENDS CmlTrans

ProjOps == {"ortho", "persp", "planes", "planesraw", "nearp", "fovz"}
\* rational bounds of the call
PB(e) == [l |-> Norm(e.l, e.den), r |-> Norm(e.r, e.den), b |-> Norm(e.b, e.den), t |-> Norm(e.t, e.den), n |-> Norm(e.n, e.den), f |-> Norm(e.f, e.den),
          s |-> I(IF e.hand = 1 THEN 1 ELSE -1), zc |-> e.zc]
R2 == <<2, 1>>
\* nearest clip depth
Near0(p) == IF p.zc = 1 THEN R0 ELSE <<-1, 1>>
OrthoM(p) == LET w == RSub(p.r, p.l)  h == RSub(p.t, p.b)  d == RSub(p.f, p.n)
                 k == RSub(R1, Near0(p)) \* depth of the clip range
             IN << RDiv(R2, w), R0, R0, RDiv(RNeg(RAdd(p.r, p.l)), w),
                   R0, RDiv(R2, h), R0, RDiv(RNeg(RAdd(p.t, p.b)), h),
                   R0, R0, RDiv(RMul(p.s, k), d), RSub(Near0(p), RDiv(RMul(k, p.n), d)),
                   R0, R0, R0, R1 >>
PerspM(p) == LET w == RSub(p.r, p.l)  h == RSub(p.t, p.b)  d == RSub(p.f, p.n)
                 \* clip depth A + B/distance with the ends at n and f
                 B == RDiv(RMul(RSub(Near0(p), R1), RMul(p.n, p.f)), d)
                 A == RSub(R1, RDiv(B, p.f))
             IN << RDiv(RMul(R2, p.n), w), R0, RMul(p.s, RDiv(RNeg(RAdd(p.r, p.l)), w)), R0,
                   R0, RDiv(RMul(R2, p.n), h), RMul(p.s, RDiv(RNeg(RAdd(p.t, p.b)), h)), R0,
                   R0, R0, RMul(p.s, A), B,
                   R0, R0, p.s, R0 >>
\* planes of the volume facing inwards, before scaling: left, right, bottom, top, near, far
VPlanes(p, persp) ==
  IF persp = 1 THEN << <<p.n, R0, RNeg(RMul(p.l, p.s)), R0>>, <<RNeg(p.n), R0, RMul(p.r, p.s), R0>>,
                       <<R0, p.n, RNeg(RMul(p.b, p.s)), R0>>, <<R0, RNeg(p.n), RMul(p.t, p.s), R0>>,
                       <<R0, R0, p.s, RNeg(p.n)>>, <<R0, R0, RNeg(p.s), p.f>> >>
  ELSE << <<R1, R0, R0, RNeg(p.l)>>, <<<<-1, 1>>, R0, R0, p.r>>, <<R0, R1, R0, RNeg(p.b)>>, <<R0, <<-1, 1>>, R0, p.t>>,
          <<R0, R0, p.s, RNeg(p.n)>>, <<R0, R0, RNeg(p.s), p.f>> >>
\* corners of the volume: (i, j, k) in {0, 1}^3, k = 1 far
Corner(p, persp, i, j, k) == LET x == IF i = 0 THEN p.l ELSE p.r  y == IF j = 0 THEN p.b ELSE p.t
                                 z == IF k = 0 THEN p.n ELSE p.f
                                 g == IF persp = 1 /\ k = 1 THEN RDiv(p.f, p.n) ELSE R1
                             IN <<RMul(x, g), RMul(y, g), RMul(p.s, z), R1>>
MulPt(M, x) == [i \in 1..4 |-> RSumSeq([k \in 1..4 |-> RMul(M[(i - 1) * 4 + k], x[k])])]
Dot4(a, b) == RSumSeq([k \in 1..4 |-> RMul(a[k], b[k])])
\* scale of the extracted planes: sums and differences of the rows of the projection
PScale(p, persp, n) == LET d == RSub(p.f, p.n)  k == RSub(R1, Near0(p)) IN
  CASE n \in {1, 2} -> RDiv(R2, RSub(p.r, p.l))
    [] n \in {3, 4} -> RDiv(R2, RSub(p.t, p.b))
    [] n = 5 -> IF persp = 1 THEN RDiv(RMul(k, p.f), d) ELSE RDiv(k, d)
    [] n = 6 -> IF persp = 1 THEN RDiv(RMul(k, p.n), d) ELSE RDiv(k, d)
\* a plane of the view frame as a plane of the world frame, where view = R world + v
WorldPlane(e, pl) == LET R == RotQ(e.q, e.dq) IN
  [j \in 1..4 |-> IF j = 4 THEN RAdd(RSumSeq([k \in 1..3 |-> RMul(pl[k], I(e.v[k]))]), pl[4])
                  ELSE RSumSeq([k \in 1..3 |-> RMul(R[(k - 1) * 3 + j], pl[k])])]
\* length of a normal with components on two axes, chosen rational in the calls
NLen(pl) == LET q == RAdd(RAdd(RMul(pl[1], pl[1]), RMul(pl[2], pl[2])), RMul(pl[3], pl[3])) IN Rat(Isqrt(q[1]), Isqrt(q[2]))
NLenOk(pl) == LET q == RAdd(RAdd(RMul(pl[1], pl[1]), RMul(pl[2], pl[2])), RMul(pl[3], pl[3])) IN IsSquare(q[1]) /\ IsSquare(q[2])
RScale(k, pl) == [j \in 1..4 |-> RMul(k, pl[j])]
\* fields of view and zoom factors: x = tan of half the field of view, a = width over height
FovY(x, a) == RDiv(x, a)
FovX(y, a) == RMul(y, a)
ZoomOf(x) == RInv(x)
FovZ(e) == LET x == Rat(e.p, e.q)  a == Rat(e.an, e.ad)  z == ZoomOf(x) IN
  << FovY(x, a), FovX(x, a), ZoomOf(FovY(x, a)), ZoomOf(FovX(x, a)), x, z, x, x >>
ProjPre(e) == IF e.op = "fovz" THEN e.p > 0 /\ e.q > 0 /\ e.an > 0 /\ e.ad > 0 ELSE
              /\ e.l # e.r /\ e.b # e.t /\ e.n # e.f /\ (e.op = "persp" => e.n > 0 /\ e.f > 0)
              \* the bounds of a matrix may come in either order; inside is defined for bounds in order
              /\ e.op \notin {"ortho", "persp"} => e.l < e.r /\ e.b < e.t /\ e.n < e.f
              /\ e.op = "planes" => \A n \in 1..6 : NLenOk(VPlanes(PB(e), e.persp)[n])
              /\ e.op \in {"planes", "planesraw", "nearp"} => QNorm(e.q) = e.dq * e.dq /\ (e.persp = 1 => e.n > 0)
Flat6(f(_)) == [x \in 1..24 |-> f(((x - 1) \div 4) + 1)[((x - 1) % 4) + 1]]
ProjExpect(e) ==
  IF e.op = "fovz" THEN FovZ(e) ELSE
  LET p == PB(e) IN
  CASE e.op = "ortho" -> OrthoM(p)
    [] e.op = "persp" -> PerspM(p)
    [] e.op = "planes" -> LET P == VPlanes(p, e.persp)
                              W == [n \in 1..6 |-> WorldPlane(e, RScale(RInv(NLen(P[n])), P[n]))] IN Flat6(LAMBDA n : W[n])
    [] e.op = "planesraw" -> LET P == VPlanes(p, e.persp)
                                 W == [n \in 1..6 |-> WorldPlane(e, RScale(PScale(p, e.persp, n), P[n]))] IN Flat6(LAMBDA n : W[n])
    [] e.op = "nearp" -> WorldPlane(e, RScale(PScale(p, e.persp, 5), VPlanes(p, e.persp)[5]))
ProjAccept(e, o) == AllNearT(o.v, o.k, ProjExpect(e), 10, 600)
=============================================================================
