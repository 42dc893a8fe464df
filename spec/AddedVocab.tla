----------------------------- MODULE AddedVocab ------------------------------
(***************************************************************************)
(* The registered tokens: reg = [toks, special].  toks is a sequence of    *)
(* [id, content, sw, ls, rs, nz, sp, p] in order of first registration,    *)
(* with the flags of the latest one; p is the text to look for: the        *)
(* content, normalized when nz.  special holds the contents ever           *)
(* registered as special.                                                  *)
(***************************************************************************)
EXTENDS Models

NoTokens == [toks |-> <<>>, special |-> {}]

MaxOf(S, least) == FoldSet(MaxI, least, S)
VocIds(cm) == IF cm = <<>> THEN {} ELSE DOMAIN cm[1].rev
RegIds(reg) == {reg.toks[k].id : k \in 1..Len(reg.toks)}
IndexOf(reg, content) == SelectInSeq(reg.toks, LAMBDA e : e.content = content)

RegisterOne(cm, norm, reg, tok) ==
  LET at == IndexOf(reg, tok.content)
      id == IF at > 0 THEN reg.toks[at].id
            ELSE IF cm # <<>> /\ tok.content \in DOMAIN cm[1].voc THEN cm[1].voc[tok.content]
            ELSE 1 + MaxOf(VocIds(cm) \cup RegIds(reg), -1)
      e == [id |-> id, content |-> tok.content, sw |-> tok.sw, ls |-> tok.ls, rs |-> tok.rs, nz |-> tok.nz, sp |-> tok.sp,
            p |-> IF tok.nz THEN NormalizeOpt(norm, Aligned(tok.content)).c ELSE tok.content]
  IN IF tok.content = <<>> THEN reg
     ELSE [toks |-> IF at > 0 THEN [reg.toks EXCEPT ![at] = e] ELSE Append(reg.toks, e),
           special |-> IF tok.sp THEN reg.special \cup {tok.content} ELSE reg.special]
Register(cm, norm, reg, toks) == FoldLeft(LAMBDA r, t : RegisterOne(cm, norm, r, t), reg, toks)
RegisteredCount(toks) == Len(SelectSeq(toks, LAMBDA t : t.content # <<>>))

-----------------------------------------------------------------------------
(* Finding tokens in a text *)

\* the tokens looked for in one pass; of those that look the same, the one of lowest id is meant
Patterns(reg, normalized) ==
  SelectSeq(reg.toks, LAMBDA e : /\ e.nz = normalized /\ e.p # <<>>
                                 /\ \A d \in ToSet(reg.toks) : (d.nz = normalized /\ d.p = e.p) => e.id <= d.id)

Qualifies(x, t, i) ==
  /\ OccursAt(x.p, t, i)
  /\ (x.sw /\ i > 0) => ~IsWordChar(t[i])
  /\ (x.sw /\ i + Len(x.p) < Len(t)) => ~IsWordChar(t[i + Len(x.p) + 1])

\* the longest token that qualifies at i
BestAt(ps, t, i) ==
  LET q == {k \in 1..Len(ps) : Qualifies(ps[k], t, i)}
  IN IF q = {} THEN <<>>
     ELSE <<ps[CHOOSE k \in q : \A x \in q : Len(ps[k].p) >= Len(ps[x].p)]>>

\* the text cut into <<i, j, <<>>>> (unclaimed) and <<i, j, <<entry>>>>; [from, at) is
\* scanned but unclaimed
Scan(ps, t) ==
  LET n == Len(t)
      Unclaimed(st, stop) == IF st.from < stop THEN Append(st.out, <<st.from, stop, <<>>>>) ELSE st.out
      Step(st, i) ==
        IF i < st.at THEN st
        ELSE LET b == BestAt(ps, t, i)
             IN IF b = <<>> THEN st
                ELSE LET e == b[1]
                         start == IF e.ls THEN WsStart(t, st.from, i) ELSE i
                         stop0 == i + Len(e.p)
                         stop == IF e.rs THEN WsEnd(t, stop0) ELSE stop0
                     IN [from |-> stop, at |-> stop, out |-> Append(Unclaimed(st, start), <<start, stop, <<e>>>>)]
      end == IF ps = <<>> THEN [from |-> 0, at |-> 0, out |-> <<>>]
             ELSE FoldLeft(Step, [from |-> 0, at |-> 0, out |-> <<>>], [k \in 1..n |-> k - 1])
  IN Unclaimed(end, n)

\* claim, in the unclaimed splits, what the patterns match
Claim(pt, ps) ==
  [pt EXCEPT !.s = Flatten([k \in 1..Len(pt.s) |->
     LET x == pt.s[k] IN
     IF x.t # <<>> THEN <<x>>
     ELSE LET cs == Scan(ps, SplitText(pt, x))
          IN [m \in 1..Len(cs) |->
               [i |-> x.i + cs[m][1], j |-> x.i + cs[m][2],
                t |-> IF cs[m][3] = <<>> THEN <<>>
                      ELSE <<[id |-> cs[m][3][1].id, v |-> cs[m][3][1].content, i |-> 0, j |-> cs[m][2] - cs[m][1]]>>]]])]

\* raw tokens, normalization of the rest, normalized tokens
Extract(reg, norm, text) ==
  LET p1 == Claim(Whole(Aligned(text)), Patterns(reg, FALSE))
      p2 == IF norm = <<>> THEN p1 ELSE Rewrite(p1, LAMBDA a : Normalize(norm[1], a))
  IN Claim(p2, Patterns(reg, TRUE))
=============================================================================
