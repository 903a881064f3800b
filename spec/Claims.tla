--------------------------------- MODULE Claims ---------------------------------
(***************************************************************************)
(* A decoder facing counts that lie (C11).  The input holds Size octets;    *)
(* the decoder reads a count, then that many elements, each of which takes  *)
(* one octet saying how many two-octet items it holds, and the items.  The  *)
(* octets are whatever the environment likes: each count is chosen when it  *)
(* is read.  Memory is counted in octets of the decoded form, where an item *)
(* takes ItemMem and an element ElemMem.                                    *)
(*                                                                         *)
(* Strategy "clamp" reserves room for no more elements than the octets left *)
(* could hold; "grow" reserves as it goes, doubling; "trust" reserves what  *)
(* the count says.  Bounded and Ends hold for the first two; TLC finds how  *)
(* "trust" is exhausted by a few octets (Claims_trust.cfg), and how         *)
(* "unchecked" reads past the end (Claims_unchecked.cfg).                   *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS Size, MaxCount, ElemMem, ItemMem, Strategy, Factor, Constant

VARIABLES size, left, outer, inner, mem, cap, have, steps, pc
vars == <<size, left, outer, inner, mem, cap, have, steps, pc>>

Min(a, b) == IF a < b THEN a ELSE b
Init == size \in 0..Size /\ left = size /\ outer = 0 /\ inner = 0 /\ mem = 0 /\ cap = 0 /\ have = 0 /\ steps = 0 /\ pc = "count"

Short(n) == Strategy # "unchecked" /\ left < n
Reserve(c, unit, least) ==
  CASE Strategy = "trust" -> c * unit
    [] Strategy = "clamp" -> Min(c, left \div least) * unit
    [] OTHER -> 0
(* room for one more element: doubling *)
Grown == IF Strategy \in {"grow", "unchecked"} /\ have + 1 > cap THEN (IF cap = 0 THEN 1 ELSE cap) ELSE 0

ReadCount ==
  /\ pc = "count" /\ steps' = steps + 1
  /\ IF Short(1) THEN pc' = "short" /\ UNCHANGED <<left, outer, inner, mem, cap, have>>
     ELSE \E c \in 0..MaxCount :
            /\ left' = left - 1 /\ outer' = c
            /\ mem' = mem + (CASE Strategy = "trust" -> c * ElemMem
                               [] Strategy = "clamp" -> Min(c, left - 1) * ElemMem [] OTHER -> 0)
            /\ pc' = "elem" /\ UNCHANGED <<inner, cap, have>>
  /\ UNCHANGED size
Elem ==
  /\ pc = "elem" /\ steps' = steps + 1
  /\ IF outer = 0 THEN pc' = "done" /\ UNCHANGED <<left, outer, inner, mem, cap, have>>
     ELSE IF Short(1) THEN pc' = "short" /\ UNCHANGED <<left, outer, inner, mem, cap, have>>
     ELSE \E c \in 0..MaxCount :
            /\ left' = left - 1 /\ outer' = outer - 1 /\ inner' = c
            /\ mem' = mem + Grown * ElemMem
                 + (CASE Strategy = "trust" -> c * ItemMem
                      [] Strategy = "clamp" -> Min(c, (left - 1) \div 2) * ItemMem [] OTHER -> 0)
            /\ cap' = cap + Grown /\ have' = have + 1 /\ pc' = "item"
  /\ UNCHANGED size
Item ==
  /\ pc = "item" /\ steps' = steps + 1
  /\ IF inner = 0 THEN pc' = "elem" /\ UNCHANGED <<left, inner, mem>>
     ELSE IF Short(2) THEN pc' = "short" /\ UNCHANGED <<left, inner, mem>>
     ELSE /\ left' = left - 2 /\ inner' = inner - 1
          /\ mem' = mem + (IF Strategy \in {"grow", "unchecked"} THEN 2 * ItemMem ELSE 0)
          /\ pc' = "item"
  /\ UNCHANGED <<size, outer, cap, have>>
Next == ReadCount \/ Elem \/ Item
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

InBounds == left >= 0
Bounded == mem <= Constant + Factor * size
Work == steps <= 3 + 2 * size + (IF Strategy = "unchecked" THEN 1000 ELSE 0)
Ends == <>(pc \in {"done", "short"})
=============================================================================
