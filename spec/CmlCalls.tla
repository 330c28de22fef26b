------------------------------ MODULE CmlCalls ------------------------------
(* What the specification allows as the outcome of one library call.  An   *)
(* event e records the call and every distinct observation made of it over *)
(* all type configurations: [k |-> kind of number, v |-> value, e |-> error]. *)
EXTENDS CmlScale, CmlAlloc, TLC

Expect(e, k) == CASE e.op \in ElemOps -> ElemExpect(e, k)
                  [] e.op \in VecOps -> VecExpect(e, k)
                  [] e.op \in MatOps -> MatExpect(e, k)
                  [] e.op \in QuatOps -> QuatExpect(e, k)
                  [] e.op \in RotOps -> RotExpect(e, 3)
Pre(e) == CASE e.op \in VecOps -> VecPre(e)
            [] e.op \in MatOps -> MatPre(e)
            [] e.op \in QuatOps -> QuatPre(e)
            [] e.op \in RotOps -> RotPre(e)
            [] e.op \in TransOps -> TransPre(e)
            [] e.op \in ProjOps -> ProjPre(e)
            [] e.op \in FrameOps -> FramePre(e)
            [] e.op \in CoordOps -> CoordPre(e)
            [] e.op \in ScalarOps -> ScalarPre(e)
            [] e.op \in RandOps -> RandPre(e)
            [] e.op \in AddrOps -> AddrPre(e)
            [] e.op \in StoreOps -> StorePre(e)
            [] e.op \in MStoreOps -> MStorePre(e)
            [] e.op \in ExprOps -> ExprPre(e)
            [] e.op \in SizeOps -> SzPre(e)
            [] e.op \in AllocOps -> AllocPre(e)
            [] OTHER -> TRUE

(* Calls that must be refused with the given error; observations of kind    *)
(* "x" are the operands afterwards, which keep their values.                *)
Refused(o, err, keep) == o.e = err \/ (o.e = "" /\ o.k = "x" /\ AllNear(o.v, "d", keep))
SomeErr(e) == \E j \in 1..Len(e.obs) : e.obs[j].e # ""

AcceptObs(e, o) ==
  CASE e.op = "lusing" -> Refused(o, "std::invalid_argument", [j \in 1..e.r |-> I(5)]) /\ SomeErr(e)
    [] e.op = "rconebad" -> Refused(o, "std::invalid_argument", [j \in 1..e.n |-> I(9)]) /\ SomeErr(e)
    [] e.op = "rzero" -> Refused(o, "minimum_vector_size_error", << >>) /\ SomeErr(e)
    [] e.op \in SizeOps -> SzAccept(e, o)
    [] OTHER -> o.e = "" /\ (CASE e.op \in MatOps -> MatAccept(e, o)
                               [] e.op \in QuatOps -> QuatAccept(e, o)
                               [] e.op \in RotOps -> RotAccept(e, o)
                               [] e.op \in TransOps -> TransAccept(e, o)
                               [] e.op \in ProjOps -> ProjAccept(e, o)
                               [] e.op \in FrameOps -> FrameAccept(e, o)
                               [] e.op \in CoordOps -> CoordAccept(e, o)
                               [] e.op \in ScalarOps -> ScalarAccept(e, o)
                               [] e.op \in TypeOps -> TypeAccept(e, o)
                               [] e.op \in CmpOps -> CmpAccept(e, o)
                               [] e.op \in RandOps -> RandAccept(e, o)
                               [] e.op \in AddrOps -> AddrAccept(e, o)
                               [] e.op \in StoreOps -> StoreAccept(e, o)
                               [] e.op \in MStoreOps -> MStoreAccept(e, o)
                               [] e.op \in ExprOps -> ExprAccept(e, o)
                               [] e.op \in AllocOps -> AllocAccept(e, o)
                               [] e.op = "projh" -> AllNearT(o.v, o.k, Expect(e, o.k), 3000, 0)   \* a normal given in single precision is not exactly of unit length
                               [] OTHER -> AllNear(o.v, o.k, Expect(e, o.k)))

Accept(e) == Assert(Pre(e) /\ ScalePre(e), <<"precondition", e>>) /\ Len(e.obs) > 0 /\ \A j \in 1..Len(e.obs) : AcceptObs(e, e.obs[j])
Explain(e) == [j \in 1..Len(e.obs) |-> IF AcceptObs(e, e.obs[j]) THEN <<"ok">>
                                            ELSE IF e.op = "ahist" /\ e.obs[j].e = "" THEN AWhy(e.obs[j].v, 1, AInit, e.prog, 1)
                                            ELSE <<e.obs[j].c, e.obs[j].e, e.obs[j].v>>]
=============================================================================
