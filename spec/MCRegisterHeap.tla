--------------------------- MODULE MCRegisterHeap ---------------------------
(* Every history of a few calls on a small register file, a group and a     *)
(* register, with holding, installing and replacing.                        *)
EXTENDS RegisterHeap, TLC
CONSTANTS Depth, MaxV
VARIABLES h, n, last, prev
vars == <<h, n, last, prev>>
Ids == {1, 2, 3, 4, 5}         \* a file, a group, a register, a held register, a held group
CONSTANTS W, W3              \* of the file and group, and of the register
Init == /\ h = HNew(HNew(HNew(Empty, [id |-> 1, kind |-> "file", w |-> W]), [id |-> 2, kind |-> "group", w |-> W]),
                    [id |-> 3, kind |-> "reg", w |-> W3, v |-> 1, n |-> ""])
        /\ n = 0 /\ last = <<>> /\ prev = h
Kinds(id) == h.obj[id].kind
Live == DOMAIN h.obj
Gs(id) == 0..(Groups(Kinds(id)) - 1)
Rs(id) == 0..(Regs(Kinds(id)) - 1)
At(op, id, f) == {[op |-> op, id |-> id, g |-> g, r |-> r, byname |-> FALSE, n |-> ""] @@ f : g \in Gs(id), r \in Rs(id)}
Calls == UNION {
    UNION {At("put", id, [v |-> v]) : v \in {0, MaxV}}
    \cup At("clear", id, [z |-> 0])
    \cup (IF Kinds(id) = "reg" THEN {} ELSE
            UNION {At("replace", id, [v |-> 2 ^ w - 1, rn |-> "", w |-> w]) : w \in WidthsC} \cup At("hold", id, [to |-> 4])
       \cup UNION {At("install", id, [from |-> s]) : s \in {i \in Live : Kinds(i) = "reg"}}
       \cup {[op |-> o, id |-> id, g |-> g] : o \in {"cleargroup", "clearall"}, g \in Gs(id)})
    \cup (IF Kinds(id) # "file" THEN {} ELSE
            {[op |-> "holdgroup", id |-> id, g |-> g, to |-> 5] : g \in Gs(id)}
       \cup {[op |-> "replacegroup", id |-> id, g |-> g, v |-> 2 ^ w - 1, w |-> w] : g \in Gs(id), w \in WidthsC}
       \cup {[op |-> "installgroup", id |-> id, g |-> g, from |-> s] : g \in Gs(id), s \in {i \in Live : Kinds(i) = "group"}})
    : id \in Live}
Next == n < Depth /\ \E x \in Calls :
          IF HLegal(h, x) THEN h' = HAfter(h, x) /\ n' = n + 1 /\ last' = x /\ prev' = h
          ELSE UNCHANGED vars
Spec == Init /\ [][Next]_vars
TypeOK == /\ \A k \in 1..Len(h.cell) : FitsIn(h.cell[k].v, h.cell[k].w)
          /\ \A g \in 1..Len(h.grp) : Range(h.grp[g]) \subseteq 1..Len(h.cell)
          /\ \A id \in Live : Range(h.obj[id].top) \subseteq 1..(IF Kinds(id) = "reg" THEN Len(h.cell) ELSE Len(h.grp))
\* one register, many ways: equal cells read equal values whatever the way
OnePlace == \A a, b \in Live : \A i \in 1..Len(CellsOf(h, a)), j \in 1..Len(CellsOf(h, b)) :
              CellsOf(h, a)[i] = CellsOf(h, b)[j] => Values(h, a)[i] = Values(h, b)[j]
\* without sharing the heap is the flat register file of Registers.tla
Unshared(q) == \A a, b \in DOMAIN q.obj : \A i \in 1..Len(CellsOf(q, a)), j \in 1..Len(CellsOf(q, b)) :
                (a # b \/ i # j) => CellsOf(q, a)[i] # CellsOf(q, b)[j]
Refines == (last # <<>> /\ Unshared(prev) /\ last.op \notin {"hold", "holdgroup", "install", "installgroup"}) =>
             /\ Flat(h, last.id) = After(Flat(prev, last.id), last)
             /\ \A id \in DOMAIN prev.obj \ {last.id} : Flat(h, id) = Flat(prev, id)
\* writing one register changes no register but that one
Frame == (last # <<>> /\ last.op \in {"put", "clear"}) =>
           \A k \in 1..Len(h.cell) : k # CellOf(prev, last) => h.cell[k] = prev.cell[k]
\* clearing zeroes whatever the group or file now refers to, and nothing else
ClearReach == (last # <<>> /\ last.op \in {"cleargroup", "clearall"}) =>
   LET cs == IF last.op = "clearall" THEN Range(CellsOf(prev, last.id)) ELSE Range(prev.grp[GroupOf(prev, last)]) IN
   \A k \in 1..Len(h.cell) : h.cell[k].v = IF k \in cs THEN 0 ELSE prev.cell[k].v
\* a register keeps its width wherever it is put
Widths == prev = h \/ \A k \in 1..Len(prev.cell) : h.cell[k].w = prev.cell[k].w
\* holding and installing move no value into any other register
Sharing == (last # <<>> /\ last.op \in {"hold", "holdgroup", "install", "installgroup"}) => h.cell = prev.cell
=============================================================================
