------------------------------- MODULE AllClaims -------------------------------
(***************************************************************************)
(* Claims.tla with nothing bounded, for Apalache: inputs of any size, counts *)
(* that say anything, lists in lists.  A decoder that checks before it reads *)
(* and makes room as it goes (doubling) never holds more than a fixed        *)
(* multiple of the input, and comes to an end (C11): Bounded and Work are    *)
(* inductive.                                                                *)
(***************************************************************************)
EXTENDS Integers

ElemMem == 64
ItemMem == 16

VARIABLES
  \* @type: Int;
  size,
  \* @type: Int;
  left,
  \* @type: Int;
  outer,
  \* @type: Int;
  inner,
  \* @type: Int;
  have,
  \* @type: Int;
  cap,
  \* @type: Int;
  items,
  \* @type: Int;
  steps,
  \* @type: Str;
  pc

Grown == IF have + 1 > cap THEN (IF cap = 0 THEN 1 ELSE cap) ELSE 0
Mem == cap * ElemMem + items * 2 * ItemMem

Init ==
  /\ size \in Nat /\ left = size /\ outer = 0 /\ inner = 0 /\ have = 0 /\ cap = 0 /\ items = 0 /\ steps = 0 /\ pc = "count"

ReadCount ==
  /\ pc = "count" /\ steps' = steps + 1
  /\ IF left < 1 THEN pc' = "short" /\ UNCHANGED <<left, outer>>
     ELSE left' = left - 1 /\ outer' \in Nat /\ pc' = "elem"
  /\ UNCHANGED <<size, inner, have, cap, items>>
Elem ==
  /\ pc = "elem" /\ steps' = steps + 1
  /\ IF outer = 0 THEN pc' = "done" /\ UNCHANGED <<left, outer, inner, have, cap>>
     ELSE IF left < 1 THEN pc' = "short" /\ UNCHANGED <<left, outer, inner, have, cap>>
     ELSE left' = left - 1 /\ outer' = outer - 1 /\ inner' \in Nat /\ have' = have + 1 /\ cap' = cap + Grown /\ pc' = "item"
  /\ UNCHANGED <<size, items>>
Item ==
  /\ pc = "item" /\ steps' = steps + 1
  /\ IF inner = 0 THEN pc' = "elem" /\ UNCHANGED <<left, inner, items>>
     ELSE IF left < 2 THEN pc' = "short" /\ UNCHANGED <<left, inner, items>>
     ELSE left' = left - 2 /\ inner' = inner - 1 /\ items' = items + 1 /\ UNCHANGED pc
  /\ UNCHANGED <<size, outer, have, cap>>
Rest == pc \in {"done", "short"} /\ UNCHANGED <<size, left, outer, inner, have, cap, items, steps, pc>>
Next == ReadCount \/ Elem \/ Item \/ Rest

Types ==
  /\ size >= 0 /\ left >= 0 /\ left <= size /\ outer >= 0 /\ inner >= 0 /\ have >= 0 /\ cap >= 0 /\ items >= 0 /\ steps >= 0
  /\ pc \in {"count", "elem", "item", "short", "done"}
Bounded == Mem <= 128 * size
Work == steps <= 2 * size + 3
Inv ==
  /\ Types /\ Bounded /\ Work
  /\ have + 2 * items <= size - left
  /\ (have = 0 => cap = 0) /\ cap <= 2 * have /\ cap >= have
  (* every step but the last takes an octet, or ends an element that took one *)
  /\ (pc = "count" => steps = 0 /\ left = size /\ have = 0)
  /\ (pc = "elem" => steps <= (size - left) + have)
  /\ (pc = "item" => steps <= (size - left) + have - 1)
  /\ (pc \in {"short", "done"} => steps <= (size - left) + have + 1)
IndInit ==
  /\ size \in Nat /\ left \in Nat /\ outer \in Nat /\ inner \in Nat /\ have \in Nat /\ cap \in Nat /\ items \in Nat /\ steps \in Nat
  /\ pc \in {"count", "elem", "item", "short", "done"} /\ Inv
Empty == FALSE      \* to see that IndInit is not
=============================================================================
