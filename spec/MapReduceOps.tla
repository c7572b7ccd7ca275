---------------------------- MODULE MapReduceOps ----------------------------
(* C25: what the map/reduce analyses have to report. Cats(a, d, o) is the    *)
(* bag of categories that document d contributes to analysis a with options  *)
(* o, as a sequence of <<category, number>>; the result of an analysis is    *)
(* the sum over all documents, whatever the shards, batches and orders.      *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

One(x) == <<<<x, 1>>>>

\* Text classifiers skip blank texts and do not look into very long ones
Classified(d, cats) == IF d.blank = 1 THEN <<>> ELSE IF d.long = 1 THEN One("long") ELSE cats

PiiCounted(it) ==
    CASE it.type = "email" -> it.domain = 1
      [] it.near = "isbn" \/ it.near = "doi" \/ it.near = "#" -> FALSE
      [] it.type = "phone_numbers" /\ it.near = "url" -> FALSE
      [] OTHER -> TRUE

Cats(a, d, o) ==
    CASE a = "url" -> One(d.host)
      [] a = "scheme" -> One(d.scheme)
      [] a = "ext" -> One(IF d.ext \in {"jpg", "png", "jpeg"} THEN d.ext ELSE "other")
      [] a = "domain" -> IF d.suffix = "" THEN <<>> ELSE <<<<d.suffix, d.n>>>>
      [] a = "dates" -> One(IF d.date # "" THEN d.date ELSE IF d.timestamp # "" THEN d.timestamp
                            ELSE IF d.created # "" THEN d.created ELSE "None")
      [] a = "lengths" -> IF d.chars < 0 THEN One("text is None")
                          ELSE <<<<"chars " \o ToString(d.chars), 1>>, <<"tokens " \o ToString(d.tokens), 1>>>>
      [] a = "unique-lengths" ->
            (IF d.chars >= 0 /\ \E i \in 1..Len(o.toks) : o.toks[i] = d.tokens THEN One(ToString(d.tokens) \o " tok / " \o d.line) ELSE <<>>)
            \o (IF d.chars >= 0 /\ \E i \in 1..Len(o.chars) : o.chars[i] = d.chars THEN One(ToString(d.chars) \o " char / " \o d.line) ELSE <<>>)
      [] a = "language" -> Classified(d, IF d.det = "broken" THEN <<>> ELSE One(IF d.reliable = 1 THEN d.det ELSE "un"))
      [] a = "pii" -> IF d.blank = 1 \/ d.junk = 1 THEN <<>>
                      ELSE LET q == SelectSeq(d.items, PiiCounted) IN [i \in 1..Len(q) |-> <<q[i].type, 1>>]
      [] a = "tokens" -> IF d.host = "" THEN <<>> ELSE <<<<d.host, d.words>>>>
      [] a = "alive" -> One(IF d.up = 1 THEN "True" ELSE "False")
      [] a = "profanity" -> Classified(d, One(IF 1 \in {d.sentences[i] : i \in 1..Len(d.sentences)} THEN "profane" ELSE "not profane"))
      [] a = "taxonomy" -> Classified(d, One(IF d.offmin + d.offnot > 0 THEN "profane" ELSE "not profane")
                                         \o <<<<"offensive-minority-reference", d.offmin>>, <<"offensive-not-minority", d.offnot>>,
                                              <<"harmless-minority", d.harmless>>>>)
      [] a = "sample" -> One(d.key)

Flat(shards) == FoldLeft(LAMBDA acc, s : acc \o s, <<>>, shards)
AddAll(bag, q) == FoldLeft(LAMBDA b, x : IF x[2] = 0 THEN b
                                         ELSE TLCEval(IF x[1] \in DOMAIN b THEN [b EXCEPT ![x[1]] = @ + x[2]] ELSE b @@ (x[1] :> x[2])), bag, q)
Empty == [x \in {} |-> 0]
Expected(c) == FoldLeft(LAMBDA b, d : AddAll(b, Cats(c.analysis, d, c.opts)), Empty, Flat(c.shards))
Reported(c) == AddAll(Empty, c.out)
At(b, k) == IF k \in DOMAIN b THEN b[k] ELSE 0

(* merged = 1: the output of the reduction, every category on one line;      *)
(* part = 1: a sample, which must be a part of the data                      *)
MapReduceAllowed(c) ==
    LET e == TLCEval(Expected(c))
        r == TLCEval(Reported(c))
    IN  /\ c.merged = 1 => Cardinality({c.out[i][1] : i \in 1..Len(c.out)}) = Len(c.out)
        /\ IF c.part = 1 THEN \A k \in DOMAIN r : r[k] <= At(e, k)
           ELSE /\ \A k \in DOMAIN r : r[k] = At(e, k)
                /\ \A k \in DOMAIN e : At(r, k) = e[k]

(* Mean sentiment of the sentences that mention a group: documents are       *)
(* sequences of sentences [v |-> polarity in 64ths, m |-> mentions <<group,  *)
(* term>>]; c.out = sequence of <<group, p, q>> for the mean p/q.            *)
Mentions(c) ==
    FoldLeft(LAMBDA acc, d : acc \o (IF d.blank = 1 \/ d.long = 1 THEN <<>> ELSE d.sentences), <<>>, Flat(c.shards))
MeansAllowed(c) ==
    LET all == TLCEval(FoldLeft(LAMBDA acc, s :
                    acc \o SetToSeq({<<s.m[j][1], s.m[j][2], s.v>> : j \in 1..Len(s.m)}), <<>>, Mentions(c)))
        sums == TLCEval(FoldLeft(LAMBDA b, x : IF x[1] \in DOMAIN b
                            THEN [b EXCEPT ![x[1]] = <<@[1] + x[3], @[2] + 1>>] ELSE b @@ (x[1] :> <<x[3], 1>>), Empty, all))
    IN  /\ {c.out[i][1] : i \in 1..Len(c.out)} = DOMAIN sums
        /\ Len(c.out) = Cardinality(DOMAIN sums)
        /\ \A i \in 1..Len(c.out) : LET x == sums[c.out[i][1]]
                                    IN  c.out[i][2] * 64 * x[2] = x[1] * c.out[i][3]

(* The summary of the lengths of a data set: the share of every length among *)
(* the documents with a text; toks, chars: sequences of <<length, p, q>> for *)
(* the share p/q                                                             *)
ShareOf(c, lengths, out) ==
    LET bag == TLCEval(AddAll(Empty, [i \in 1..Len(lengths) |-> <<lengths[i], 1>>]))
    IN  /\ Len(out) = Cardinality(DOMAIN bag)
        /\ {out[i][1] : i \in 1..Len(out)} = DOMAIN bag
        /\ \A i \in 1..Len(out) : out[i][2] * Len(lengths) = bag[out[i][1]] * out[i][3]
SummaryAllowed(c) ==
    LET q == SelectSeq(Flat(c.shards), LAMBDA d : d.chars >= 0)
    IN  /\ ShareOf(c, [i \in 1..Len(q) |-> q[i].tokens], c.toks)
        /\ ShareOf(c, [i \in 1..Len(q) |-> q[i].chars], c.chars)
=============================================================================
