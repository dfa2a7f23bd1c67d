------------------------------ MODULE NodeQuorum -----------------------------
(***************************************************************************)
(* The same quorum on the side of a node.  t.set says where the voters are *)
(* validators: "first" and "last" - in the epoch of the block's number,    *)
(* which is the first or the last number of it; "before" and "after" -     *)
(* only in the epoch that ended or that begins next to that number.        *)
(***************************************************************************)
EXTENDS Quorum
InForce(t) == t.set \in {"first", "last"}
NodeAccepts(t) == InForce(t) /\ Accepts(t)
\* one aggregate signature against named voters, without weights or a block
VotesFit(t) == SignatureFits(t)
=============================================================================
