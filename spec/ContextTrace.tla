---------------------------- MODULE ContextTrace ----------------------------
EXTENDS Context, TraceRun
S == INSTANCE Charset

Bad(c, name) == IF c THEN <<>> ELSE <<name>>
Nobody == [k |-> "absent"]
Fun(q) == [f \in {q[i].f : i \in 1..Len(q)} |-> q[CHOOSE i \in 1..Len(q) : q[i].f = f].v]
\* ctx, rec: sequences of <<>> (not made yet) or <<function>>
After(s, ev) ==
  CASE ev.op = "make"  -> [s EXCEPT !.ctx[ev.c] = <<New(Fun(ev.given))>>]
    [] ev.op = "put"   -> [s EXCEPT !.ctx[ev.c] = <<Put(@[1], ev.f, ev.v)>>]
    [] ev.op = "reset_" -> [s EXCEPT !.ctx[ev.c] = <<Reset(@[1])>>]
    [] ev.op = "save"  -> [s EXCEPT !.rec[ev.r] = <<Save(s.ctx[ev.c][1])>>]
    [] ev.op = "load"  -> [s EXCEPT !.ctx[ev.c] = <<Load(@[1], s.rec[ev.r][1])>>]
    [] OTHER -> s
Shown(list) == [i \in 1..Len(list) |-> IF list[i] = <<>> THEN <<>> ELSE <<Fun(list[i])>>]
Clause(op) == CASE op = "make" -> "ctx.new" [] op = "put" -> "ctx.put" [] op = "reset_" -> "ctx.reset" [] op = "save" -> "ctx.save"
                [] op = "load" -> "ctx.load"
CStep(s, ev) ==
  IF ev.op = "reset" THEN [st |-> [ctx |-> <<<<>>, <<>>>>, rec |-> <<<<>>, <<>>, <<>>>>], bad |-> <<>>]
  ELSE IF ev.op = "charset"
  THEN [st |-> s, bad |-> Bad({ev.codes[i].c : i \in 1..Len(ev.codes)} = S!Codes /\ Len(ev.codes) = 64, "chr.codes")
                       \o Bad(\A i \in 1..Len(ev.codes) : ev.codes[i].c \in S!Codes => ev.codes[i].ch = S!Char(ev.codes[i].c), "chr.char")]
  ELSE LET w == After(s, ev) IN
       [st |-> w, bad |-> Bad(ev.res = "ok", Clause(ev.op)) \o Bad(Shown(ev.ctx) = w.ctx, Clause(ev.op))
                         \o Bad(Shown(ev.rec) = w.rec, IF ev.op = "save" THEN "ctx.save" ELSE "ctx.records")
                         \* what a record has besides is not the context's business
                         \o Bad(\A i \in 1..Len(ev.rest) : ev.rest[i] = <<>> \/ ev.rest[i] = <<"'label " \o ToString(i) \o "'", ToString(i)>>, "ctx.rest")]
CSt0 == [ctx |-> <<<<>>, <<>>>>, rec |-> <<<<>>, <<>>, <<>>>>]
=============================================================================
