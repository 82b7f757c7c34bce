------------------------------- MODULE MCBNA --------------------------------
(* The same with the cumulative average. *)
EXTENDS MCBN
MinusOne == -1
=============================================================================
