----------------------------- MODULE Pretrained -----------------------------
(* C33: a document goes through a pretrained tokenizer and every token of it *)
(* is counted. Tokenizers come with settings that are meant for feeding      *)
(* models: a length to which texts are cut, one to which they are filled up, *)
(* and special tokens around them. None of them may reach the counts:        *)
(* Variant "cut", "fill" and "special" let them.                             *)
EXTENDS PretrainedOps, TLC

CONSTANTS Variant, MaxWords, MaxLen, Cut

A == 97
B == 98
Letters == {A, B}
Words == UNION {[1..n -> Letters] : n \in 1..MaxLen}

Level(u) == [type |-> "level", vocab |-> {<<A>>, <<A, B>>, <<B, B>>}, cont |-> {}, merges |-> <<>>, unk |-> u, lower |-> 0, longest |-> 100, special |-> {}, join |-> "space"]
Piece == [type |-> "piece", vocab |-> {<<A>>, <<B>>, <<A, A>>, <<B, A, B>>}, cont |-> {<<B>>, <<A, B>>, <<B, B>>},
          merges |-> <<>>, unk |-> 1, lower |-> 0, longest |-> 3, special |-> {<<B, B>>}, join |-> "piece"]
Pair == [type |-> "pair", vocab |-> {}, cont |-> {}, unk |-> 1, lower |-> 0, longest |-> 100, special |-> {}, join |-> "space",
         merges |-> <<<< <<A>>, <<A>> >>, << <<A>>, <<B>> >>, << <<B>>, <<A, B>> >>, << <<A, A>>, <<A, A>> >> >>]

VARIABLES T, words, at, seen, state
vars == <<T, words, at, seen, state>>

Init == /\ T \in {Level(0), Level(1), Piece, Pair}
        /\ words \in UNION {[1..n -> Words] : n \in 0..MaxWords}
        /\ at = 1
        /\ seen = (IF Variant = "special" THEN <<PUnknown>> ELSE <<>>)
        /\ state = "tokenizing"

Word == /\ state = "tokenizing" /\ at <= Len(words)
        /\ IF ~PCan(T, words[at])
           THEN state' = "failed" /\ UNCHANGED <<at, seen>>
           ELSE /\ at' = at + 1
                /\ LET s == seen \o PWord(T, words[at])
                   IN  seen' = IF Variant = "cut" /\ Len(s) > Cut THEN SubSeq(s, 1, Cut) ELSE s
                /\ UNCHANGED state
        /\ UNCHANGED <<T, words>>

Finish == /\ state = "tokenizing" /\ at > Len(words)
          /\ state' = "done"
          /\ seen' = IF Variant = "fill" /\ Len(seen) < Cut THEN seen \o [i \in 1..Cut - Len(seen) |-> PUnknown] ELSE seen
          /\ UNCHANGED <<T, words, at>>

Done == state # "tokenizing" /\ UNCHANGED vars
Next == Word \/ Finish \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Word \/ Finish)

\* all tokens of the document are counted and nothing else is
Exact == state = "done" => seen = PTokens(T, words)
Fails == (state = "failed" => ~PCanAll(T, words)) /\ (state = "done" => PCanAll(T, words))
\* without unknown words the tokens spell the document
Spelled == (state = "done" /\ PUnknown \notin Range(seen)) =>
              FoldLeft(LAMBDA s, t : s \o t.p, <<>>, seen) = FoldLeft(LAMBDA s, w : s \o w, <<>>, words)
\* and no two neighbours in a word could still be merged; every piece is known
Settled == \A i \in 1..Len(words) :
             /\ T.type = "pair" => LET s == PWord(T, words[i])
                                   IN  \A x \in 1..Len(s) - 1 : <<s[x].p, s[x + 1].p>> \notin Range(T.merges)
             /\ T.type = "piece" => \A t \in Range(PWord(T, words[i])) :
                                      t.u = 1 \/ t.p \in T.special \/ t.p \in (IF t.cont = 1 THEN T.cont ELSE T.vocab)
Ends == <>(state # "tokenizing")
=============================================================================
