------------------------------ MODULE MC_Coord ------------------------------
(* Small scope: points with integer distances in every octant, on every     *)
(* axis and plane, about every axis, with both kinds of latitude.  Turning  *)
(* a point into coordinates and back gives the point; every octant is run.  *)
EXTENDS CmlCoord, Json, IOUtils, TLC, SequencesExt
Deep == IOEnv.TIER = "thorough"
Shapes0 == {<<12, 3, 4>>, <<0, 3, 4>>, <<5, 0, 0>>, <<3, 4, 0>>, <<3, 0, 4>>, <<0, 5, 0>>, <<0, 0, 5>>, <<8, 9, 12>>, <<60, 15, 20>>}
Signs == {1, -1}
Pt(axis, s, g) == [k \in 1..3 |-> LET n == ((k - 1 - axis) % 3) + 1 IN s[n] * g[n]]
Sg == [1..3 -> Signs]
VARIABLES axis, lat, pt
Init == axis \in 0..2 /\ lat \in {0, 1} /\ \E s \in Shapes0, g \in Sg : pt = Pt(axis, s, g)
\* the octants are reached from each other by reflections
Next == \E k \in 1..3 : pt' = [pt EXCEPT ![k] = -@] /\ UNCHANGED <<axis, lat>>
Sph == [op |-> "csph", axis |-> axis, lat |-> lat, b |-> pt, den |-> 1, tol |-> 0, fine |-> 0]
Back == LET x == CoordExpect(Sph)
            e == [op |-> "sph", axis |-> axis, lat |-> lat, p |-> x[1][1], den |-> 1,
                  tc |-> x[4][1] * x[5][2], ts |-> x[5][1] * x[4][2], td |-> x[4][2] * x[5][2],
                  pc |-> x[2][1] * x[3][2], ps |-> x[3][1] * x[2][2], pd |-> x[2][2] * x[3][2], k |-> 0]
        IN CoordPre(Sph) /\ (\A k \in 1..3 : REq(CoordExpect(e)[k], I(pt[k])))
CylBack == LET e == [op |-> "ccyl", axis |-> axis, b |-> pt, den |-> 1, tol |-> 0]  x == CoordExpect(e)
               c == [op |-> "cyl", axis |-> axis, p |-> x[1][1], h |-> x[2][1], den |-> 1, tc |-> x[3][1] * x[4][2], ts |-> x[4][1] * x[3][2], td |-> x[3][2] * x[4][2], k |-> 0]
           IN \A k \in 1..3 : REq(CoordExpect(c)[k], I(pt[k]))
\* the two latitudes are complementary
Complement == LET x == CoordExpect([Sph EXCEPT !.lat = 0])  y == CoordExpect([Sph EXCEPT !.lat = 1]) IN REq(x[2], y[3]) /\ REq(x[3], y[2])
All == {<<a, Pt(a, s, g)>> : a \in 0..2, s \in Shapes0, g \in Sg}
Dirs == {<<3, 4, 5>>, <<-3, 4, 5>>, <<4, -3, 5>>, <<-4, -3, 5>>, <<1, 0, 1>>, <<-1, 0, 1>>, <<0, 1, 1>>, <<0, -1, 1>>}
P2 == {<<3, 4>>, <<-4, 3>>, <<-3, -4>>, <<4, -3>>, <<2, 0>>, <<-2, 0>>, <<0, 2>>, <<0, -2>>, <<5, 12>>}
P3 == {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<-1, 0, 0>>, <<0, -2, 0>>, <<0, 0, -3>>, <<3, 4, 0>>, <<0, 3, 4>>, <<4, 0, 3>>}
AngOk(x, y) == LenSq(Cross(x, y)) = 0 \/ IsLen(Cross(x, y))
Calls == {[op |-> "csph", axis |-> z[1], lat |-> l, b |-> z[2], den |-> d, tol |-> 0, fine |-> 0] : z \in All, l \in {0, 1}, d \in {2}}
    \cup {[op |-> "ccyl", axis |-> z[1], b |-> z[2], den |-> 1, tol |-> 0] : z \in All}
    \cup {[op |-> "sph", axis |-> a, lat |-> l, p |-> 3, den |-> 1, tc |-> t[1], ts |-> t[2], td |-> t[3], pc |-> f[1], ps |-> f[2], pd |-> f[3], k |-> 0] : a \in 0..2, l \in {0, 1}, t \in Dirs, f \in Dirs}
    \cup {[op |-> "cyl", axis |-> a, p |-> 3, h |-> 7, den |-> 1, tc |-> t[1], ts |-> t[2], td |-> t[3], k |-> 0] : a \in 0..2, t \in Dirs}
    \cup {[op |-> "cpolar", b |-> p, den |-> 1, tol |-> 0] : p \in P2} \cup {[op |-> "polar", p |-> 3, den |-> 2, tc |-> t[1], ts |-> t[2], td |-> t[3], k |-> 0] : t \in Dirs}
    \cup {[op |-> o, a |-> x, b |-> y, den |-> 1, fine |-> 0] : o \in {"sang", "uang"}, x \in P2, y \in P2}
    \cup {[op |-> "uang", a |-> z[1], b |-> z[2], den |-> 1, fine |-> 0] : z \in {w \in P3 \X P3 : AngOk(w[1], w[2])}}
    \cup {[op |-> "sang", a |-> z[1], b |-> z[2], c |-> EAdd(EScale(Cross(z[1], z[2]), s), z[1]), den |-> 1, fine |-> 0] : s \in {1, -1}, z \in {w \in P3 \X P3 : AngOk(w[1], w[2]) /\ LenSq(Cross(w[1], w[2])) > 0}}
    \cup {[op |-> "rotv", b |-> <<2, -3, 5>>, den |-> 1, u |-> u, du |-> 1, tc |-> t[1], ts |-> t[2], td |-> t[3], k |-> 0] : u \in {x \in P3 : LenSq(x) = 1}, t \in Dirs}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Calls))
=============================================================================
