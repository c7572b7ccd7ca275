--------------------------- MODULE PretrainedOps ----------------------------
(* C33: what pretrained tokenizers make of a text. Words are sequences of    *)
(* character codes. A tokenizer is                                           *)
(*   [type   |-> "level", "piece" (greedy, longest prefix first) or "pair"   *)
(*              (merging neighbours, best rank first),                       *)
(*    vocab  |-> the words it knows ("piece": pieces that start a word),     *)
(*    cont   |-> "piece": pieces that continue a word,                       *)
(*    merges |-> "pair": pairs of pieces, best rank first,                   *)
(*    unk    |-> 1 if there is a token for words it does not know,           *)
(*    lower  |-> 1 if capital letters are made small,                        *)
(*    special |-> words that stand for themselves and are left out when      *)
(*              tokens are put together,                                     *)
(*    join   |-> how tokens are put together: "space", "piece" or "bytes",   *)
(*    longest |-> "piece": longer words are not looked at]                   *)
(* and a token [u |-> 0, cont |-> 1 if it continues a word, p |-> its        *)
(* characters], or [u |-> 1, ...] for the unknown.                           *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

PTok(p, cont) == [u |-> 0, cont |-> cont, p |-> p]
PUnknown == [u |-> 1, cont |-> 0, p |-> <<>>]

PLower(T, w) == IF T.lower = 1 THEN [i \in 1..Len(w) |-> IF w[i] \in 65..90 THEN w[i] + 32 ELSE w[i]] ELSE w

\* the end of the longest piece that starts at i, 0 if there is none
PLongest(T, w, i) ==
    LET known == IF i = 1 THEN T.vocab ELSE T.cont
        ends == {j \in i..Len(w) : SubSeq(w, i, j) \in known}
    IN  IF ends = {} THEN 0 ELSE CHOOSE j \in ends : \A x \in ends : x <= j

RECURSIVE PPieces(_, _, _)
PPieces(T, w, i) ==
    IF i > Len(w) THEN <<>>
    ELSE LET j == PLongest(T, w, i)
         IN  IF j = 0 THEN <<PUnknown>>                        \* one unknown stands for the whole word (PWord)
             ELSE <<PTok(SubSeq(w, i, j), IF i = 1 THEN 0 ELSE 1)>> \o PPieces(T, w, j + 1)

\* neighbours are merged, the pair of the best rank first, the leftmost of them first
RECURSIVE PMerge(_, _)
PMerge(T, ps) ==
    LET ranks == {r \in 1..Len(T.merges) : \E i \in 1..Len(ps) - 1 : <<ps[i], ps[i + 1]>> = T.merges[r]}
    IN  IF ranks = {} THEN ps
        ELSE LET r == CHOOSE x \in ranks : \A y \in ranks : x <= y
                 at == {i \in 1..Len(ps) - 1 : <<ps[i], ps[i + 1]>> = T.merges[r]}
                 i == CHOOSE x \in at : \A y \in at : x <= y
             IN  PMerge(T, SubSeq(ps, 1, i - 1) \o <<ps[i] \o ps[i + 1]>> \o SubSeq(ps, i + 2, Len(ps)))

\* the tokens of a word
PWord(T, word) ==
    LET w == PLower(T, word)
    IN  CASE word \in T.special -> <<PTok(word, 0)>>
          [] T.type = "level" -> IF w \in T.vocab THEN <<PTok(w, 0)>> ELSE <<PUnknown>>
          [] T.type = "piece" -> IF Len(w) > T.longest THEN <<PUnknown>>
                                 ELSE LET ps == PPieces(T, w, 1)
                                      IN  IF PUnknown \in Range(ps) THEN <<PUnknown>> ELSE ps
          [] T.type = "pair" -> LET ps == PMerge(T, [i \in 1..Len(w) |-> <<w[i]>>])
                                IN  [i \in 1..Len(ps) |-> PTok(ps[i], 0)]

\* can the word be tokenized at all?
PCan(T, w) == T.unk = 1 \/ PUnknown \notin Range(PWord(T, w))

\* the tokens of a text: those of all its words, and nothing else
PTokens(T, words) == FoldLeft(LAMBDA s, w : s \o PWord(T, w), <<>>, words)
PCanAll(T, words) == \A i \in 1..Len(words) : PCan(T, words[i])

\* every window of n tokens
PWindows(s, n) == [i \in 1..(IF Len(s) >= n THEN Len(s) - n + 1 ELSE 0) |-> SubSeq(s, i, i + n - 1)]

\* a record of what the library does with texts: for every text its tokens (err = 1: an error) and its n-grams
PTextAllowed(T, n, x) ==
    IF PCanAll(T, x.words)
    THEN LET ts == PTokens(T, x.words)
         IN  x.err = 0 /\ x.tokens = ts /\ x.grams = PWindows(ts, n)
    ELSE x.err = 1
PTokenizer(t) == [t EXCEPT !.vocab = Range(t.vocab), !.cont = Range(t.cont), !.special = Range(t.special)]
PretrainedAllowed(c) ==
    LET T == PTokenizer(c.tok)
    IN  \A i \in 1..Len(c.texts) : PTextAllowed(T, c.n, c.texts[i])

\* The string of an n-gram: its tokens put together, without the special ones.
PString(T, toks) ==
    LET ts == SelectSeq(toks, LAMBDA t : t.u = 0 /\ t.p \notin T.special)
        part(i) == CASE T.join = "bytes" -> ts[i].p
                     [] T.join = "space" -> IF i = 1 THEN ts[i].p ELSE <<32>> \o ts[i].p
                     [] T.join = "piece" -> IF ts[i].cont = 1 THEN IF i = 1 THEN <<35, 35>> \o ts[i].p ELSE ts[i].p
                                            ELSE IF i = 1 THEN ts[i].p ELSE <<32>> \o ts[i].p
    IN  FoldLeft(LAMBDA s, i : s \o part(i), <<>>, [i \in 1..Len(ts) |-> i])
StringsAllowed(c) ==
    LET T == PTokenizer(c.tok)
    IN  \A i \in 1..Len(c.items) : c.items[i].s = PString(T, c.items[i].toks)

\* a run over documents some of which (those with can = 0) the tokenizer fails for
PretrainedRunAllowed(docs, c) ==
    IF c.loads = 1 /\ \A i \in 1..Len(docs) : docs[i].m = 0 \/ docs[i].can = 1
    THEN c.status = 0
    ELSE c.status # 0 /\ c.records = 0
=============================================================================
