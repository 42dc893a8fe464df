------------------------------- MODULE MC_Parts ------------------------------
(* C22: the parts on their own: every short history of a vocabulary of one's own, every small table of merges on every  *)
(* short word, every short text split by a rule of one's own, every number of constructor arguments.                    *)
EXTENDS Parts
VARIABLE case
allvars == <<tks, last, case>>
Deep == IOEnv.VERIF_TIER = "thorough"
Emit(events) == PrintT("CASE " \o ToJson(events))
SeqsOf(S, lo, hi) == UNION {[1..n -> S] : n \in lo..hi}

a == 97  b == 98  sp == 32
-----------------------------------------------------------------------------
(* vocabularies of one's own *)
Tok(c, n, sw, nz, special) == [content |-> c, sw |-> sw, ls |-> FALSE, rs |-> FALSE, nz |-> nz, sp |-> special, args |-> n]
Toks == {Tok(<<a>>, 7, FALSE, FALSE, TRUE), Tok(<<a>>, 2, TRUE, FALSE, TRUE), Tok(<<a, b>>, 3, TRUE, FALSE, TRUE), Tok(<<65>>, 7, FALSE, TRUE, FALSE), Tok(<<>>, 7, FALSE, FALSE, TRUE)}
Wp == [k |-> "WordPiece", unk |-> <<63>>, cont |-> <<35>>, maxc |-> 5, vocab |-> <<<<<<a, b>>, 7>>, <<<<63>>, 2>>, <<<<a, b, a>>, 0>>>>]
LowerBert == [k |-> "Bert", clean |-> FALSE, cjk |-> FALSE, strip |-> 0, lower |-> TRUE]
Asked == <<<<a>>, <<a, b>>, <<65>>, <<>>, <<63>>>>
Texts == <<<<a, b, sp, a, 65, b>>, <<65, a>>, <<>>>>
Histories == [model : {<<>>, <<Wp>>}, norm : {<<>>, <<LowerBert>>}, all : SeqsOf(Toks, 0, IF Deep THEN 4 ELSE 3), cutat : 0..2]
InBatches(h) ==
  LET n == MinI(h.cutat, Len(h.all))
      B(s, via) == [toks |-> s, via |-> via]
  IN IF h.cutat = 0 THEN <<B(h.all, FALSE)>> ELSE <<B(SubSeq(h.all, 1, n), TRUE), B(SubSeq(h.all, n + 1, Len(h.all)), FALSE)>>
RegOf(h) == RegisterBatches(Compile(h.model), h.norm, NoTokens, InBatches(h))
\* the histories the batches are cut from tell the same
Grouping == case.k = "reg" => RegOf(case.h) = RegOf([case.h EXCEPT !.cutat = 0])
\* a content has one id, which names it, and the model's when it has it
Naming ==
  case.k = "reg" => LET reg == RegOf(case.h) cm == Compile(case.h.model) IN
    /\ \A i, j \in 1..Len(reg.toks) : i # j => reg.toks[i].id # reg.toks[j].id /\ reg.toks[i].content # reg.toks[j].content
    /\ \A i \in 1..Len(reg.toks) :
         /\ RegNames(reg, <<reg.toks[i].id>>) = <<<<reg.toks[i].content>>>>
         /\ cm # <<>> => LookInto(cm[1], <<reg.toks[i].content>>, <<>>).ids[1] \in {<<>>, <<reg.toks[i].id>>}
         /\ cm # <<>> => LookInto(cm[1], <<>>, <<reg.toks[i].id>>).toks[1] \in {<<>>, <<reg.toks[i].content>>}
    /\ reg.special = {t.content : t \in {GivenToken(x, x.args) : x \in ToSet(case.h.all)} \cap {y \in {GivenToken(x, x.args) : x \in ToSet(case.h.all)} : y.sp /\ y.content # <<>>}}
-----------------------------------------------------------------------------
(* splitting by a rule of one's own *)
Behaviors == {"Removed", "Isolated", "MergedWithPrevious", "MergedWithNext", "Contiguous"}
Splits == [t : SeqsOf({a, sp, 128512}, 0, IF Deep THEN 6 ELSE 4), runs : BOOLEAN, beh : Behaviors]
PiecesOf(x) == OwnSplit({sp, 128512}, x.runs, x.beh, Whole(Aligned(x.t))).s
Tiles(s, n) == /\ \A k \in 1..Len(s) : s[k].i < s[k].j /\ s[k].i = (IF k = 1 THEN 0 ELSE s[k - 1].j)
               /\ (IF s = <<>> THEN 0 ELSE s[Len(s)].j) = n
Covered(s) == UNION {{i + 1 : i \in s[k].i..(s[k].j - 1)} : k \in 1..Len(s)}
Splitting ==
  case.k = "cut" => LET x == case.x  s == PiecesOf(x) IN
    IF x.beh = "Removed" THEN Covered(s) = {i \in 1..Len(x.t) : x.t[i] = a}
    ELSE /\ Tiles(s, Len(x.t))
         /\ x.beh = "Isolated" => \A k \in 1..Len(s) : s[k].j - s[k].i > 1 => x.runs \/ x.t[s[k].i + 1] = a
         /\ x.beh = "Contiguous" => \A k \in 2..Len(s) : (x.t[s[k].i + 1] = a) # (x.t[s[k].i] = a)
-----------------------------------------------------------------------------
(* merging symbols of one's own *)
Pairs == <<<<0, 0>>, <<0, 1>>, <<1, 0>>, <<1, 1>>, <<2, 0>>, <<0, 2>>>>
Tables == {t \in SeqsOf(1..Len(Pairs), 1, IF Deep THEN 4 ELSE 3) : \A i, j \in 1..Len(t) : i # j => t[i] # t[j]}
Rows(t) == [k \in 1..Len(t) |-> <<Pairs[t[k]][1], Pairs[t[k]][2], k, IF k = 1 THEN 2 ELSE k + 2>>]
Strings == SeqsOf({0, 1}, 0, IF Deep THEN 6 ELSE 4)
SymsOf(w) == [k \in 1..Len(w) |-> <<w[k], 2 * k, 2>>]
Merging ==
  case.k = "word" => \A w \in Strings :
    LET r == OwnMerge(SymsOf(w), Rows(case.t), 0) tbl == OwnTable(Rows(case.t)) IN
    /\ \A k \in 1..(Len(r) - 1) : <<r[k][1], r[k + 1][1]>> \notin DOMAIN tbl /\ r[k][2] + r[k][3] = r[k + 1][2]
    /\ w # <<>> => r[1][2] = 2 /\ r[Len(r)][2] + r[Len(r)][3] = 2 * Len(w) + 2
    /\ OwnMerge(SymsOf(w), Rows(case.t), 1) = SymsOf(w)
-----------------------------------------------------------------------------
(* arguments left out *)
Berts == [k : {"Bert"}, clean : BOOLEAN, cjk : BOOLEAN, strip : {0, 1}, lower : BOOLEAN]
Argued ==
  case.k = "args" =>
    /\ Made("norm", case.c, 4) = case.c
    /\ \A d \in Berts : \A n \in 0..4 :
         (/\ n >= 1 => d.clean = case.c.clean
          /\ n >= 2 => d.cjk = case.c.cjk
          /\ n >= 3 => d.strip = case.c.strip
          /\ n >= 4 => d.lower = case.c.lower) => Made("norm", d, n) = Made("norm", case.c, n)
\* the printable byte characters are 256, and each tells its byte
Printable == case.k = "args" => /\ Cardinality(ToSet(ByteMap)) = 256
                                /\ \A x \in 1..256 : Len(ByteMap[x]) = 1 /\ CharByte(ByteMap[x][1]) = x - 1 /\ ~WhiteSpace(ByteMap[x][1])
-----------------------------------------------------------------------------
Bare(e, n) == e @@ [args |-> n]
MCInit == Init /\ case = [k |-> "none"]
MCNext ==
  /\ case.k = "none" /\ UNCHANGED <<tks, last>>
  /\ \/ \E h \in Histories : case' = [k |-> "reg", h |-> h]
          /\ Emit(<<[op |-> "reg", model |-> h.model, norm |-> h.norm, batches |-> InBatches(h), ids |-> <<-1, 0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11>>, ask |-> Asked, texts |-> Texts]>>)
     \/ \E x \in Splits : case' = [k |-> "cut", x |-> x]
          /\ Emit(<<[op |-> "cut", n |-> Aligned(x.t), s |-> <<<<0, Len(x.t), FALSE>>>>, set |-> <<sp, 128512>>, runs |-> x.runs, beh |-> x.beh]>>)
     \/ \E t \in Tables : case' = [k |-> "word", t |-> t]
          /\ Emit([k \in 1..Cardinality(Strings) |-> [op |-> "word", syms |-> SymsOf(SetToSeq(Strings)[k]), tbl |-> Rows(t), drop |-> 0]])
     \/ \E c \in Berts : case' = [k |-> "args", c |-> c]
          /\ Emit([n \in 1..5 |-> [op |-> "norm", cfg |-> c, args |-> n - 1, in |-> Aligned(<<65, 769, 0, 20013, 233, 9>>)]])
MCSpec == MCInit /\ [][MCNext]_allvars
=============================================================================
