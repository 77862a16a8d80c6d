---------------------------- MODULE PointStoreBig -----------------------------
(***************************************************************************)
(* As PointStore, for inputs with thousands of points (see BigDomain).     *)
(***************************************************************************)
EXTENDS PointStore, BigDomain

(* i, and with it BigDomain's record R, is always tid *)
BigStoreSpec == StoreInit /\ i = tid /\ [][StoreNext /\ UNCHANGED i]_<<tid, i>>

B21 == BigValid => I.o = "ok" /\ Len(I.sn) = 2 /\ SnapOk(I.sn[1]) /\ SnapOk(I.sn[2])
GeneratorValid == BigValid
=============================================================================
