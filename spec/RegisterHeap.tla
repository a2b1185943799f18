--------------------------- MODULE RegisterHeap -----------------------------
(* Registers as places that can be held and shared.  A register file refers *)
(* to groups, a group refers to registers.  A program may keep a group or a *)
(* register it has read from a file ("hold"), and put one it has into a     *)
(* file or group ("install"); from then on the same register is reached by  *)
(* several ways, and whatever is done by one of them is seen by all.        *)
(*   h.obj[id] = [kind, w, top]  top: groups of a file / <<group>> / <<cell>>*)
(*   h.grp[n]  = the cells of group n, in order                             *)
(*   h.gw[n]   = the width of group n                                       *)
(*   h.cell[n] = [v, n, w]       value, name ("" = none), width of register *)
EXTENDS Registers

Empty == [obj |-> <<>>, grp |-> <<>>, gw |-> <<>>, cell |-> <<>>]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
FreshGroups(h, n, v, w) ==
  [h EXCEPT !.gw   = @ \o [g \in 1..n |-> w],
            !.grp  = @ \o [g \in 1..n |-> [k \in 1..NRegs |-> Len(h.cell) + (g - 1) * NRegs + k]],
            !.cell = @ \o [k \in 1..(n * NRegs) |-> [v |-> v, n |-> RegNames[((k - 1) % NRegs) + 1], w |-> w]]]
HNew(h, x) ==
  LET o(top) == [kind |-> x.kind, w |-> x.w, top |-> top] IN
  IF x.kind = "reg"
  THEN [h EXCEPT !.cell = Append(@, [v |-> x.v, n |-> x.n, w |-> x.w]),
                 !.obj = With(@, x.id, o(<<Len(h.cell) + 1>>))]
  ELSE LET n == Groups(x.kind) IN
       [FreshGroups(h, n, 0, x.w) EXCEPT !.obj = With(@, x.id, o([g \in 1..n |-> Len(h.grp) + g]))]

RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
CellsOf(h, id) == LET o == h.obj[id] IN
  IF o.kind = "reg" THEN o.top ELSE Flatten([g \in 1..Len(o.top) |-> h.grp[o.top[g]]])
Values(h, id) == LET c == CellsOf(h, id) IN [k \in 1..Len(c) |-> h.cell[c[k]].v]
\* the object as Registers.tla knows it
Flat(h, id) == LET c == CellsOf(h, id) IN
  [kind |-> h.obj[id].kind, w |-> h.obj[id].w, v |-> [k \in 0..(Len(c) - 1) |-> h.cell[c[k + 1]].v]]
GroupOf(h, x) == h.obj[x.id].top[x.g + 1]
CellOf(h, x) == LET o == h.obj[x.id] IN
  IF o.kind = "reg" THEN o.top[1] ELSE h.grp[GroupOf(h, x)][RegOf(x) + 1]
Range(s) == {s[k] : k \in 1..Len(s)}
Zero(h, cs) == [h EXCEPT !.cell = [k \in 1..Len(h.cell) |-> IF k \in cs THEN [h.cell[k] EXCEPT !.v = 0] ELSE h.cell[k]]]

\* the object as the call sees it: a register or group put in may be wider or narrower than the file
Local(h, x) == LET o == Flat(h, x.id) IN
  CASE x.op \in {"replace", "replacegroup"} -> [o EXCEPT !.w = x.w]
    [] x.op \in {"get", "put", "getbit", "putbit", "getrange", "putrange", "rwidth", "rlen"} ->
         IF Reach(o, x) THEN [o EXCEPT !.w = h.cell[CellOf(h, x)].w] ELSE o
    [] x.op = "itergroupset" -> IF ValidGroup(o, x.g) THEN [o EXCEPT !.w = h.cell[h.grp[GroupOf(h, x)][x.r + 1]].w] ELSE o
    [] x.op = "gwidth" -> IF ValidGroup(o, x.g) THEN [o EXCEPT !.w = h.gw[GroupOf(h, x)]] ELSE o
    [] OTHER -> o
HLegal(h, x) == LET o == h.obj[x.id] IN
  CASE x.op = "hold"      -> Reach(o, x)
    [] x.op = "install"   -> o.kind # "reg" /\ Reach(o, x)
    [] x.op \in {"holdgroup", "installgroup"} -> ValidGroup(o, x.g)
    [] OTHER -> Legal(Local(h, x), x)
HAfter(h, x) ==
  LET w == Local(h, x).w IN
  CASE x.op = "put"      -> [h EXCEPT !.cell[CellOf(h, x)].v = x.v]
    [] x.op = "putbit"   -> [h EXCEPT !.cell[CellOf(h, x)].v = PutRange(@, w, x.i, x.i, x.v)]
    [] x.op = "putrange" -> [h EXCEPT !.cell[CellOf(h, x)].v = PutRange(@, w, x.s, x.e, x.v)]
    [] x.op = "clear"    -> [h EXCEPT !.cell[CellOf(h, x)].v = 0]
    [] x.op = "itergroupset" -> [h EXCEPT !.cell[h.grp[GroupOf(h, x)][x.r + 1]].v = x.v]
    [] x.op = "cleargroup" -> Zero(h, Range(h.grp[GroupOf(h, x)]))
    [] x.op = "clearall"   -> Zero(h, Range(CellsOf(h, x.id)))
    [] x.op = "replace"    -> [h EXCEPT !.cell = Append(@, [v |-> x.v, n |-> x.rn, w |-> x.w]),
                                        !.grp[GroupOf(h, x)][RegOf(x) + 1] = Len(h.cell) + 1]
    [] x.op = "replacegroup" -> [FreshGroups(h, 1, x.v, x.w) EXCEPT !.obj[x.id].top[x.g + 1] = Len(h.grp) + 1]
    [] x.op = "hold"         -> [h EXCEPT !.obj = With(@, x.to, [kind |-> "reg", w |-> w, top |-> <<CellOf(h, x)>>])]
    [] x.op = "holdgroup"    -> [h EXCEPT !.obj = With(@, x.to, [kind |-> "group", w |-> w, top |-> <<GroupOf(h, x)>>])]
    [] x.op = "install"      -> [h EXCEPT !.grp[GroupOf(h, x)][RegOf(x) + 1] = h.obj[x.from].top[1]]
    [] x.op = "installgroup" -> [h EXCEPT !.obj[x.id].top[x.g + 1] = h.obj[x.from].top[1]]
    [] OTHER -> h
\* iterating a file: the groups it refers to, each by the first number it has there
GroupOrder(h, id) == LET t == h.obj[id].top IN
  [k \in 1..Len(t) |-> (CHOOSE j \in 1..Len(t) : t[j] = t[k] /\ \A i \in 1..(j - 1) : t[i] # t[k]) - 1]
NamesIn(h, x) == LET c == h.grp[GroupOf(h, x)] IN [k \in 1..Len(c) |-> h.cell[c[k]].n]
=============================================================================
