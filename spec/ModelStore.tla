----------------------------- MODULE ModelStore -----------------------------
(* Networks in memory and what is stored of them.                                            *)
(* Knowledge is abstract: a sequence of numbers that says how it came about (the network it  *)
(* started from, then every training with what the trainer had been through before).  Two    *)
(* networks with the same knowledge must be indistinguishable: same answers, and the same    *)
(* training applied to both (by trainers with the same past) leads to the same knowledge.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES nets,   \* id -> [k: knowledge, h: trainings of this object so far, m: name of its model directory]
          disk    \* <<model, label>> -> knowledge; label "" stands for the description of the network
svars == <<nets, disk>>
SInit == nets = <<>> /\ disk = <<>>
Put(f, x, y) == (x :> y) @@ f
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
OfModel(m) == {x \in DOMAIN disk : x[1] = m}
Models == {x[1] : x \in DOMAIN disk}
Build(i, origin, m) == nets' = Put(nets, i, [k |-> <<origin>>, h |-> <<>>, m |-> m]) /\ UNCHANGED disk
After(n, t) == n.k \o <<-1>> \o n.h \o <<-2, t>>
Train(i, t) == /\ i \in DOMAIN nets
               /\ nets' = [nets EXCEPT ![i] = [k |-> After(@, t), h |-> Append(@.h, t), m |-> @.m]]
               /\ UNCHANGED disk
Described == <<0>>
\* save a whole model at m; into is where it ends up
SaveModel(i, m, overwrite, into) ==
    /\ i \in DOMAIN nets
    /\ IF OfModel(m) = {} \/ overwrite THEN into = m ELSE into \notin Models
    /\ disk' = Put(Put(Without(disk, OfModel(into)), <<into, "">>, Described), <<into, "default">>, nets[i].k)
    /\ UNCHANGED nets
KeepKnowledge(i, l, overwrite, into) ==
    LET m == nets[i].m IN
    /\ i \in DOMAIN nets /\ l # "" /\ into # ""
    /\ IF <<m, l>> \notin DOMAIN disk \/ overwrite THEN into = l ELSE <<m, into>> \notin DOMAIN disk
    /\ disk' = Put(disk, <<m, into>>, nets[i].k) /\ UNCHANGED nets
CanRestore(i, l) == i \in DOMAIN nets /\ <<nets[i].m, l>> \in DOMAIN disk
Restore(i, l) == CanRestore(i, l) /\ nets' = [nets EXCEPT ![i].k = disk[<<nets[i].m, l>>]] /\ UNCHANGED disk
Forget(i, l) == /\ i \in DOMAIN nets /\ disk' = Without(disk, {<<nets[i].m, l>>}) /\ UNCHANGED nets
CanLoad(m) == <<m, "">> \in DOMAIN disk /\ <<m, "default">> \in DOMAIN disk
Load(i, m) == CanLoad(m) /\ nets' = Put(nets, i, [k |-> disk[<<m, "default">>], h |-> <<>>, m |-> m]) /\ UNCHANGED disk
Refused == UNCHANGED svars
-----------------------------------------------------------------------------
(* The description of a network: what is written and how it is read back.  A network is a    *)
(* sequence of layers in the order they were added, each naming the layers it gets its       *)
(* inputs from, in order.  Written: per layer the layers it feeds, and the order of inputs   *)
(* of the layers that have several.                                                          *)
Feeds(p, v) == {w \in 1..Len(p) : \E k \in 1..Len(p[w]) : p[w][k] = v}
Written(p) == [n |-> Len(p), out |-> [v \in 1..Len(p) |-> Feeds(p, v)],
               ins |-> [v \in {w \in 1..Len(p) : Len(p[w]) > 1} |-> p[v]]]
Only(S) == CHOOSE x \in S : TRUE
ReadBack(f) == [v \in 1..f.n |-> IF v \in DOMAIN f.ins THEN f.ins[v]
                                 ELSE LET from == {u \in 1..f.n : v \in f.out[u]}
                                      IN IF from = {} THEN <<>> ELSE <<Only(from)>>]
=============================================================================
