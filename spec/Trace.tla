-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Trace validation: is a recorded execution of the implementation a       *)
(* behaviour of the specification?  Each line of the trace is one public   *)
(* call with its arguments and what it returned; the specification's own   *)
(* action for the call is taken, and its result compared.                  *)
(*                                                                         *)
(* Events of a session: new, add, enc, dec, reset (a new process).         *)
(* Events of single components: norm, pre, model, chain, trunc, post, pad  *)
(* (with args: made by a constructor given only so many arguments), and of *)
(* the parts alone: lookup, reg, cut, word, bytemap.                       *)
(* ev.out = [ok |-> FALSE] is a standard exception; a crash, a hang *)
(* or a sanitizer report is ev.out = [crash |-> ...], which no action      *)
(* of the specification can produce.                                       *)
(***************************************************************************)
EXTENDS Parts

TraceFile == IOEnv.VERIF_TRACE
Prop == IOEnv.VERIF_PROP
Events == ndJsonDeserialize(TraceFile)

\* said: what encode returned where the specification leaves a choice
VARIABLES at, rejected, said

-----------------------------------------------------------------------------
(* What of an encoding the property under check speaks about *)

\* the fields fs of encodings a and b agree, overflowing pieces included
RECURSIVE SameEnc(_, _, _)
SameEnc(fs, a, b) ==
  /\ \A f \in fs : a[f] = b[f]
  /\ Len(a.over) = Len(b.over)
  /\ \A k \in 1..Len(a.over) : SameEnc(fs, a.over[k], b.over[k])

\* exp and got are results of encode; tk the tokenizer's state
AgreeEncode(tk, exp, got) ==
  /\ "ok" \in DOMAIN got
  /\ IF Prop = "C20" THEN exp.ok => got.ok
     ELSE /\ got.ok = exp.ok
          /\ got.ok =>
               CASE Prop = "C01" -> SameEnc(AllFields \ {"offs"}, exp.v, got.v)
                 [] Prop = "C02" -> /\ Parallel(got.v)
                                    /\ Denoting(Denotes(tk), got.v)
                                    /\ WordsOrdered(got.v)
                                    /\ SameEnc({"toks"}, exp.v, got.v) => SameEnc({"ids", "spec", "att", "words"}, exp.v, got.v)
                 [] Prop = "C03" -> SameEnc({"toks"}, exp.v, got.v) => SameEnc({"offs"}, exp.v, got.v)
                 \* where nothing else moves them, the offsets are the extent of the tokens
                 [] Prop = "C04" /\ tk.cfg.norm = <<>> /\ tk.cfg.pre = <<>> -> SameEnc({"ids", "toks", "offs"}, exp.v, got.v)
                 [] Prop \in {"C04", "C05"} -> SameEnc({"ids", "toks"}, exp.v, got.v)
                 [] OTHER -> SameEnc(AllFields, exp.v, got.v)

AgreeResult(exp, got) ==
  /\ "ok" \in DOMAIN got
  /\ IF Prop = "C20" THEN exp.ok => got.ok
     ELSE got.ok = exp.ok /\ (got.ok => got.v = exp.v)

-----------------------------------------------------------------------------
(* Components.  Agrees(exp) decides; exp is also what is reported. *)

PtOf(n, s) == [n |-> n, s |-> [k \in 1..Len(s) |->
                 [i |-> s[k][1], j |-> s[k][2], t |-> IF s[k][3] THEN <<[id |-> 7, v |-> <<>>, i |-> 0, j |-> s[k][2] - s[k][1]]>> ELSE <<>>]]]

\* a pre-tokenized text as it is observed: text, splits [text, i, j, claimed]
PtView(pt) == [c |-> pt.n.c, s |-> [k \in 1..Len(pt.s) |->
                 [x |-> SplitText(pt, pt.s[k]), i |-> pt.s[k].i, j |-> pt.s[k].j, t |-> pt.s[k].t # <<>>]]]

TokView(t) == [k \in 1..Len(t) |-> <<t[k].id, t[k].v, t[k].i, t[k].j>>]

\* results of a model on each word
ModelView(cm, ws) == [k \in 1..Len(ws) |-> TokView(TokenizeWord(cm, ws[k]))]
\* with 0 < dropout < 1: any result some dropped merges lead to
DropoutAgrees(cm, ws, got) ==
  \A k \in 1..Len(ws) : got[k] \in {TokView(SymTokens(cm.rev, s)) : s \in Reachable(cm.tbl, CutWord(cm.m, cm.voc, ws[k]))}

Expected(e) ==
  LET ev == IF "args" \in DOMAIN e THEN [e EXCEPT !.cfg = Made(e.op, e.cfg, e.args)] ELSE e IN
  CASE ev.op = "norm" -> Returned(Normalize(ev.cfg, ev.in))
    [] ev.op = "pre" -> LET r == PreTokenize(ev.cfg, PtOf(ev.n, ev.s))
                        IN Returned([c |-> r.n.c, o |-> r.n.o, s |-> PtView(r).s])
    [] ev.op = "model" -> LET cm == Compile(<<ev.cfg>>)[1]
                          IN Returned(IF ev.cfg.k = "BPE" /\ ev.cfg.drop = 2 THEN <<>> ELSE ModelView(cm, ev.words))
    [] ev.op = "chain" -> Returned(DecodeChain(ev.cfg, ev.toks))
    [] ev.op = "join" -> Returned(Flatten(DecodeChain(ev.cfg, ev.toks)))
    [] ev.op = "lookup" -> Returned(LookInto(Compile(<<ev.cfg>>)[1], ev.ask, ev.ids))
    [] ev.op = "reg" -> Returned(OwnVocabulary(ev.model, ev.norm, ev.batches, ev.ids, ev.ask, ev.texts))
    [] ev.op = "cut" -> LET r == OwnSplit(ToSet(ev.set), ev.runs, ev.beh, PtOf(ev.n, ev.s))
                        IN Returned([c |-> r.n.c, o |-> r.n.o, s |-> PtView(r).s])
    [] ev.op = "word" -> Returned(OwnMerge(ev.syms, ev.tbl, ev.drop))
    [] ev.op = "bytemap" -> Returned(ByteMap)
    [] ev.op = "trunc" -> LET r == TruncateTo(ev.cfg, ev.cfg.max, ev.e)
                          IN IF r = <<>> THEN Threw ELSE Returned(r[1])
    [] ev.op = "post" -> Returned(PostProcess(ev.cfg, ev.e, ev.special))
    [] ev.op = "pad" -> Returned(PadOpt(<<ev.cfg>>, ev.e))

\* C06..C08 compare the text, not the alignment (that is C03's); C09, C10 the pieces
AgreeComponent(ev) ==
  LET exp == Expected(ev) got == ev.out
  IN /\ "ok" \in DOMAIN got
     /\ got.ok = exp.ok
     /\ got.ok =>
          CASE ev.op = "norm" /\ Prop = "C03" -> got.v.c = exp.v.c => got.v.o = exp.v.o
            [] ev.op = "norm" /\ Prop # "C22" -> got.v.c = exp.v.c
            [] ev.op = "pre" /\ Prop = "C03" -> got.v.s = exp.v.s => got.v.o = exp.v.o
            [] ev.op = "pre" /\ Prop # "C22" -> got.v.c = exp.v.c /\ got.v.s = exp.v.s
            [] ev.op = "model" /\ ev.cfg.k = "BPE" /\ ev.cfg.drop = 2 ->
                 DropoutAgrees(Compile(<<ev.cfg>>)[1], ev.words, got.v)
            [] ev.op = "lookup" -> LooksInto(Compile(<<ev.cfg>>)[1], ev.ask, ev.ids, got.v)
            [] OTHER -> got.v = exp.v

-----------------------------------------------------------------------------
(* Sweeps: what a component made of pre \o <<c>> \o suf for EVERY code      *)
(* point c of lo..hi, run-length encoded.  A run <<a, b, shape>> says that  *)
(* every c in a..b gave the shape, -1 standing for c itself.  Between two   *)
(* consecutive break points of the tables the specification's value has     *)
(* one shape too, so it is compared at a, b and the break points between.   *)
Breaks == UData.breaks
Instance1(s, c) == [k \in 1..Len(s) |-> IF s[k] = -1 THEN c ELSE s[k]]
Instance2(s, c) == [k \in 1..Len(s) |-> Instance1(s[k], c)]
\* 0-based ranges as numbers no code point can equal
Num(x) == -2 - x

SweepValue(ev, c) ==
  LET t == ev.pre \o <<c>> \o ev.suf
      Pre == PreTokenize(ev.cfg, Whole(Aligned(t)))
      N == Normalize(ev.cfg, Aligned(t))
  IN CASE ev.comp = "norm" -> N.c
       [] ev.comp = "align" -> Flatten([k \in 1..Len(N.c) |-> <<N.c[k], Num(N.o[k][1]), Num(N.o[k][2])>>])
       [] ev.comp = "pre" -> [k \in 1..Len(Pre.s) |-> SplitText(Pre, Pre.s[k])]
       [] ev.comp = "cut" -> Flatten([k \in 1..Len(Pre.s) |->
                                LET r == Origin(Pre.n, Pre.s[k].i, Pre.s[k].j) IN <<Num(r[1]), Num(r[2])>>])
       \* into UTF-8 and back
       [] ev.comp \in {"toutf8", "fromutf8"} -> t
       [] ev.comp = "enc" -> LET e == EncodeWith(tks[ev.k], t, FALSE).v
                             IN [k \in 1..Len(e.ids) |-> Num(e.ids[k])]
                                \o Flatten([k \in 1..Len(e.offs) |-> <<Num(e.offs[k][1]), Num(e.offs[k][2])>>])

BreakIndex(c) == IF c < Breaks[1] THEN 0 ELSE Search(Breaks, c, 1, Len(Breaks))
\* the code points of the run compared
Representatives(ev, r) ==
  IF ev.all THEN r[1]..r[2]
  ELSE {r[1], r[2]} \cup {Breaks[k] : k \in (BreakIndex(r[1]) + 1)..BreakIndex(r[2])}
RunAgrees(ev, r) ==
  \A c \in Representatives(ev, r) : SweepValue(ev, c) = (IF ev.comp = "pre" THEN Instance2(r[3], c) ELSE Instance1(r[3], c))
SweepAgrees(ev) ==
  /\ "ok" \in DOMAIN ev.out /\ ev.out.ok
  /\ \A k \in 1..Len(ev.out.v) : RunAgrees(ev, ev.out.v[k])
SweepBad(ev) ==
  IF ~("ok" \in DOMAIN ev.out /\ ev.out.ok) THEN <<>>
  ELSE LET k == CHOOSE x \in 1..Len(ev.out.v) : ~RunAgrees(ev, ev.out.v[x])
           r == ev.out.v[k]
           c == CHOOSE x \in Representatives(ev, r) : SweepValue(ev, x) # (IF ev.comp = "pre" THEN Instance2(r[3], x) ELSE Instance1(r[3], x))
       IN [c |-> c, got |-> r[3], expected |-> SweepValue(ev, c)]

IsComponent(ev) == ev.op \in {"norm", "pre", "model", "chain", "join", "trunc", "post", "pad", "lookup", "reg", "cut", "word", "bytemap"}

-----------------------------------------------------------------------------

TraceInit == Init /\ at = 1 /\ rejected = 0 /\ said = <<>>

Ev == Events[at]
\* consume line at; when it is not what the specification says, report it and go on
Consume(good, exp) ==
  /\ at' = at + 1
  /\ IF good THEN rejected' = rejected
     ELSE /\ rejected' = rejected + 1
          /\ PrintT("REJECT " \o ToString(at))
          /\ PrintT("EXPECTED " \o ToString(at) \o " " \o ToJson(exp))

TraceReset == Ev.op = "reset" /\ tks' = <<>> /\ last' = Returned(<<>>) /\ Consume(TRUE, <<>>)

TraceNew ==
  /\ Ev.op = "new" /\ "src" \notin DOMAIN Ev
  /\ IF Ev.accept THEN Construct(Ev.cfg) ELSE Reject
  /\ LET got == Ev.out
     IN Consume(/\ "ok" \in DOMAIN got
                /\ got.ok = last'.ok
                \* a particular exception is promised for this one
                /\ "want" \in DOMAIN Ev => got.t = Ev.want, last'.ok)

\* constructed from the text src of a tokenizer.json, which the specification reads for itself
Open == [free |-> TRUE]
IsOpen(k) == IF k > Len(tks) THEN TRUE ELSE "free" \in DOMAIN tks[k]
TraceRead ==
  /\ Ev.op = "new" /\ "src" \in DOMAIN Ev
  /\ LET c == Configure(Ev.src)
         made == "ok" \in DOMAIN Ev.out /\ Ev.out.ok
     IN CASE c.s = "ok" -> Construct(c.v) /\ Consume(made, "accepted")
          [] c.s = "bad" -> Reject /\ Consume("ok" \in DOMAIN Ev.out /\ ~Ev.out.ok, "rejected")
          [] c.s = "free" -> /\ tks' = IF made THEN Append(tks, Open) ELSE tks
                             /\ last' = IF made THEN Returned(Len(tks) + 1) ELSE Threw
                             /\ Consume("ok" \in DOMAIN Ev.out, "either")
\* a call on a tokenizer whose configuration the specification leaves open
TraceOpen ==
  /\ Ev.op \in {"add", "enc", "dec"} /\ IsOpen(Ev.k)
  /\ UNCHANGED vars
  /\ Consume("ok" \in DOMAIN Ev.out, <<>>)

TraceAdd ==
  /\ Ev.op = "add" /\ ~IsOpen(Ev.k)
  /\ AddTokens(Ev.k, Ev.toks)
  /\ Consume(AgreeResult(last', Ev.out), last')

\* With 0 < dropout < 1 which merges are dropped is the implementation's choice (what it may lead to is checked on
\* the model itself), but it makes it once and for all: the same call on a tokenizer in the same state has one result.
Chooses(tk) == IF tk.cfg.model = <<>> THEN FALSE ELSE tk.cfg.model[1].k = "BPE" /\ tk.cfg.model[1].drop = 2
TraceChoice ==
  /\ Ev.op = "enc" /\ ~IsOpen(Ev.k) /\ Chooses(tks[Ev.k])
  /\ LET tk == tks[Ev.k]
         call == <<tk.cfg, tk.reg, Ev.text, Ev.special>>
         k == SelectInSeq(said, LAMBDA x : x[1] = call)
         sound == "ok" \in DOMAIN Ev.out /\ (Ev.out.ok => Parallel(Ev.out.v) /\ Denoting(Denotes(tk), Ev.out.v) /\ WordsOrdered(Ev.out.v))
     IN /\ IF k = 0 THEN Consume(sound, "coherent") ELSE Consume(Ev.out = said[k][2], said[k][2])
        /\ said' = IF k = 0 THEN Append(said, <<call, Ev.out>>) ELSE said
  /\ UNCHANGED vars

TraceEncode ==
  /\ Ev.op = "enc" /\ ~IsOpen(Ev.k) /\ ~Chooses(tks[Ev.k])
  /\ Encode(Ev.k, Ev.text, Ev.special)
  /\ Consume(AgreeEncode(tks[Ev.k], last', Ev.out), last')

TraceDecode ==
  /\ Ev.op = "dec" /\ ~IsOpen(Ev.k)
  /\ Decode(Ev.k, Ev.ids, Ev.skip)
  /\ Consume(AgreeResult(last', Ev.out), last')

TraceComponent ==
  /\ IsComponent(Ev)
  /\ UNCHANGED vars
  /\ Consume(AgreeComponent(Ev), IF "ok" \in DOMAIN Ev.out /\ AgreeComponent(Ev) THEN <<>> ELSE Expected(Ev))

TraceSweep ==
  /\ Ev.op = "sweep"
  /\ UNCHANGED vars
  /\ LET good == SweepAgrees(Ev) IN Consume(good, IF good THEN <<>> ELSE SweepBad(Ev))

\* The Android binding: jnew, jenc, jdec are the calls above with Java strings (UTF-16 code units u).
\* an exception's class is not part of the result
AlsoThrew(exp, got) == ~exp.ok /\ "ok" \in DOMAIN got /\ ~got.ok
TraceJNew ==
  /\ Ev.op = "jnew"
  /\ LET made == "ok" \in DOMAIN Ev.out /\ Ev.out.ok
         c == IF "u" \notin DOMAIN Ev THEN [s |-> "ok", v |-> Ev.cfg]
              ELSE IF WellFormed16(Ev.u) THEN Configure(Utf8(FromUtf16(Ev.u))) ELSE [s |-> "free"]
     IN CASE c.s = "ok" -> Construct(c.v) /\ Consume(made, "accepted")
          [] c.s = "bad" -> Reject /\ Consume("ok" \in DOMAIN Ev.out /\ ~Ev.out.ok, "rejected")
          [] c.s = "free" -> /\ tks' = IF made THEN Append(tks, Open) ELSE tks
                             /\ last' = IF made THEN Returned(Len(tks) + 1) ELSE Threw
                             /\ Consume("ok" \in DOMAIN Ev.out, "either")
TraceJEncode ==
  /\ Ev.op = "jenc"
  /\ IF ~IsOpen(Ev.k) /\ WellFormed16(Ev.u)
     THEN Encode(Ev.k, FromUtf16(Ev.u), Ev.special) /\ Consume(Ev.out = JavaEncoded(last') \/ AlsoThrew(JavaEncoded(last'), Ev.out), JavaEncoded(last'))
     ELSE UNCHANGED vars /\ Consume("ok" \in DOMAIN Ev.out, <<>>)
TraceJDecode ==
  /\ Ev.op = "jdec"
  /\ IF IsOpen(Ev.k) THEN UNCHANGED vars /\ Consume("ok" \in DOMAIN Ev.out, <<>>)
     ELSE /\ Decode(Ev.k, Ev.ids, Ev.skip)
          /\ LET exp == JavaDecoded(last')
             IN Consume("ok" \in DOMAIN Ev.out /\ (exp = <<>> \/ Ev.out = exp[1]), exp)

\* a tokenizer moved to another place is the same tokenizer
TraceMove ==
  /\ Ev.op = "move"
  /\ UNCHANGED vars
  /\ Consume("ok" \in DOMAIN Ev.out /\ Ev.out.ok, <<>>)

\* a call of which only is said that it returns or throws a standard exception (C20)
TraceAny ==
  /\ Ev.op = "any"
  /\ UNCHANGED vars
  /\ Consume("ok" \in DOMAIN Ev.out, <<>>)

TraceNext ==
  /\ at <= Len(Events)
  /\ \/ TraceChoice
     \/ TraceReset /\ said' = <<>>
     \/ /\ TraceSweep \/ TraceAny \/ TraceMove \/ TraceJNew \/ TraceJEncode \/ TraceJDecode \/ TraceNew \/ TraceRead \/ TraceOpen \/ TraceAdd \/ TraceEncode \/ TraceDecode \/ TraceComponent
        /\ UNCHANGED said

TraceSpec == TraceInit /\ [][TraceNext]_<<vars, at, rejected, said>>

\* the whole trace was consumed (rejections are reported line by line)
TraceConsumed == TLCGet("stats").diameter - 1 = Len(Events)
=============================================================================
