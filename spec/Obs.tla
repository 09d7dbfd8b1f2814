----------------------------------- MODULE Obs -----------------------------------
(* Observations recorded from the implementation:                                 *)
(*   [ok |-> TRUE/FALSE, err |-> name of the exception, shape |-> <<..>>,          *)
(*    v |-> flat sequence of reals]                                               *)
EXTENDS Vec, FiniteSets, TLC

Chk(name, cond) == IF cond THEN {} ELSE {name}
Good(o, shape) == o.ok /\ o.shape = shape
(* number of points; 0 stands for a single point outside of a batch *)
Cnt(n) == IF n = 0 THEN 1 ELSE n
Shp(n, k) == IF n = 0 THEN <<k>> ELSE <<n, k>>
ShpS(n) == IF n = 0 THEN <<>> ELSE <<n>>
Row(o, i, k) == SubSeq(o.v, (i - 1) * k + 1, i * k)
Num(o) == o.v[1]
Tag(pid, name) == pid \o "." \o name
==================================================================================
