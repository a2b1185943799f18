--------------------------- MODULE EncodingTrace ----------------------------
(* Instructions built by the real code, its opcode builders, its listing    *)
(* and its vocabulary.                                                      *)
EXTENDS Encoding, TraceRun

IntIs(r, n) == r.k = "int" /\ r.n = n
EncClauses(ev) ==
  LET t == Row(ev.m) IN
  IF Unspecified(t, ev) THEN <<>>
  ELSE IF ~Legal(t, ev) THEN IF ev.res.k = "ValueError" \/ ev.via = "again" THEN <<>> ELSE <<"enc.refuse">>
  ELSE IF ev.res.k # "int" THEN IF ev.via = "table" THEN <<"enc.table">> ELSE <<"enc.accept">>
  ELSE (IF ev.res.n = Code(t, ev) THEN <<>> ELSE
            <<CASE ev.via = "table" -> "enc.table" [] ev.via = "again" -> "enc.stable" [] OTHER -> "enc.code">>)
       \o (IF \A m \in Decode(ev.res.n) : m = t.m \/ \E S \in Aliases : {m, t.m} \subseteq S
           THEN <<>> ELSE <<"enc.ambiguous">>)
MakeClauses(ev) == IF IntIs(ev.res, Code(Row(ev.m), ev)) THEN <<>> ELSE <<"enc.builder">>
ListClauses(ev) ==
  IF ev.res.k # "ok" THEN <<"enc.listing">>
  ELSE IF /\ {ev.rows[k] : k \in 1..Len(ev.rows)} = Listing /\ Len(ev.rows) = Cardinality(Listing)
          /\ \A k \in 1..(Len(ev.rows) - 1) : ev.rows[k][1] < ev.rows[k + 1][1]
       THEN <<>> ELSE <<"enc.listing">>
\* the entries of the table themselves
RowClauses(ev) ==
  LET t == Row(ev.m)  r == ev.res IN
  IF /\ r.k = "row" /\ r.m = t.m /\ r.cls = t.cls /\ r.op5 = t.op
     /\ r.kind = (IF t.kind = "proceed" THEN "unmasked" ELSE t.kind)
     /\ t.kind \in {"maskable", "unmasked", "proceed"} => r.b23 = <<t.b23>>
     /\ t.kind # "simulator" => r.b7 = <<IF t.kind \in {"unmasked", "proceed"} THEN 0 ELSE 1>>
  THEN <<>> ELSE <<"enc.row">>
Set(s) == {s[k] : k \in 1..Len(s)}
VocabClauses(ev) ==
  IF ev.res.k # "ok" THEN <<"enc.vocabulary">>
  ELSE IF ev.g = "INSTRUCTIONS"
       THEN IF Set(ev.names) = Vocabulary /\ Len(ev.names) = Cardinality(Vocabulary) THEN <<>> ELSE <<"enc.vocabulary">>
       ELSE IF Set(ev.names) = Group(ev.g) THEN <<>> ELSE <<"enc.vocabulary">>

EStep(s, ev) == [st |-> s, bad |->
  CASE ev.op = "enc"     -> EncClauses(ev)
    [] ev.op = "make"    -> MakeClauses(ev)
    [] ev.op = "listing" -> ListClauses(ev)
    [] ev.op = "row"     -> RowClauses(ev)
    [] ev.op = "vocab"   -> VocabClauses(ev)
    [] OTHER -> <<>>]
ESt0 == <<>>
=============================================================================
