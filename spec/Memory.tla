-------------------------------- MODULE Memory --------------------------------
(* What an execution leaves behind.  When everything that its program made has *)
(* been deleted, by the program or by the library where the library owns it,   *)
(* the memory that is in use is what it was before: Heap tells the difference   *)
(* in bytes.  A scenario ends with it whatever happened in it, exceptions and   *)
(* refused models included.                                                    *)
EXTENDS Integers
HeapBad(ev) == IF ev.d # 0 THEN {"heap"} ELSE {}
=============================================================================
