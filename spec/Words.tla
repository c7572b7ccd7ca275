------------------------------- MODULE Words --------------------------------
(* C19: word segmentation (Unicode Standard Annex #29, section 4.1.1) and    *)
(* windows of tokens. A text is a sequence of characters                     *)
(*   [c |-> code point, k |-> Word_Break class, p |-> 1 if extended           *)
(*    pictographic, w |-> 1 if white space]                                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

WSkip == {"Extend", "Format", "ZWJ"}
WLine == {"CR", "LF", "Newline"}
AHLetter == {"ALetter", "Hebrew"}
MidNumLetQ == {"MidNumLet", "SQuote"}

WClass(s, i) == IF i < 1 \/ i > Len(s) THEN "none" ELSE s[i].k

\* WB4: the character before (after) position i, ignoring Extend, Format and ZWJ
RECURSIVE WPrev(_, _)
WPrev(s, i) == IF i < 1 THEN 0 ELSE IF s[i].k \in WSkip THEN WPrev(s, i - 1) ELSE i
RECURSIVE WNext(_, _)
WNext(s, i) == IF i > Len(s) THEN 0 ELSE IF s[i].k \in WSkip THEN WNext(s, i + 1) ELSE i

\* the number of regional indicators that end at position i (in the sense of WB4)
RECURSIVE WFlags(_, _)
WFlags(s, i) == IF i = 0 \/ WClass(s, i) # "RI" THEN 0 ELSE 1 + WFlags(s, WPrev(s, i - 1))

\* Is there a boundary between characters i and i + 1?
WBoundary(s, i) ==
    LET a == WClass(s, i)
        b == WClass(s, i + 1)
        l == WPrev(s, i)                                         \* what counts as the character before
        L == WClass(s, l)
        LL == IF l = 0 THEN "none" ELSE WClass(s, WPrev(s, l - 1))
        n == WNext(s, i + 2)
        NN == IF n = 0 THEN "none" ELSE WClass(s, n)
    IN  IF a = "CR" /\ b = "LF" THEN FALSE                       \* WB3
        ELSE IF a \in WLine THEN TRUE                            \* WB3a
        ELSE IF b \in WLine THEN TRUE                            \* WB3b
        ELSE IF a = "ZWJ" /\ s[i + 1].p = 1 THEN FALSE           \* WB3c
        ELSE IF a = "WSegSpace" /\ b = "WSegSpace" THEN FALSE    \* WB3d
        ELSE IF b \in WSkip THEN FALSE                           \* WB4
        ELSE IF L \in AHLetter /\ b \in AHLetter THEN FALSE      \* WB5
        ELSE IF L \in AHLetter /\ b \in ({"MidLetter"} \cup MidNumLetQ) /\ NN \in AHLetter THEN FALSE    \* WB6
        ELSE IF LL \in AHLetter /\ L \in ({"MidLetter"} \cup MidNumLetQ) /\ b \in AHLetter THEN FALSE    \* WB7
        ELSE IF L = "Hebrew" /\ b = "SQuote" THEN FALSE          \* WB7a
        ELSE IF L = "Hebrew" /\ b = "DQuote" /\ NN = "Hebrew" THEN FALSE      \* WB7b
        ELSE IF LL = "Hebrew" /\ L = "DQuote" /\ b = "Hebrew" THEN FALSE      \* WB7c
        ELSE IF L = "Numeric" /\ b = "Numeric" THEN FALSE        \* WB8
        ELSE IF L \in AHLetter /\ b = "Numeric" THEN FALSE       \* WB9
        ELSE IF L = "Numeric" /\ b \in AHLetter THEN FALSE       \* WB10
        ELSE IF LL = "Numeric" /\ L \in ({"MidNum"} \cup MidNumLetQ) /\ b = "Numeric" THEN FALSE         \* WB11
        ELSE IF L = "Numeric" /\ b \in ({"MidNum"} \cup MidNumLetQ) /\ NN = "Numeric" THEN FALSE         \* WB12
        ELSE IF L = "Katakana" /\ b = "Katakana" THEN FALSE      \* WB13
        ELSE IF L \in (AHLetter \cup {"Numeric", "Katakana", "ExtNumLet"}) /\ b = "ExtNumLet" THEN FALSE \* WB13a
        ELSE IF L = "ExtNumLet" /\ b \in (AHLetter \cup {"Numeric", "Katakana"}) THEN FALSE              \* WB13b
        ELSE IF L = "RI" /\ b = "RI" /\ WFlags(s, l) % 2 = 1 THEN FALSE       \* WB15, WB16
        ELSE TRUE                                                \* WB999

\* Segments as sequences of code points; those that are white space only are no tokens.
WTokens(s) ==
    LET ends == SetToSortSeq({i \in 1..Len(s) : i = Len(s) \/ WBoundary(s, i)}, LAMBDA x, y : x < y)
        start(j) == IF j = 1 THEN 1 ELSE ends[j - 1] + 1
        keep == SelectSeq([j \in 1..Len(ends) |-> j],
                          LAMBDA j : \E x \in start(j)..ends[j] : s[x].w = 0)
    IN  [j \in 1..Len(keep) |-> [x \in 1..(ends[keep[j]] - start(keep[j]) + 1) |-> s[start(keep[j]) + x - 1].c]]

WindowsOf(t, n) == [i \in 1..(IF Len(t) >= n THEN Len(t) - n + 1 ELSE 0) |-> SubSeq(t, i, i + n - 1)]

\* a batch of texts
TokensAllowed(c) == \A i \in 1..Len(c.texts) : c.out[i] = WTokens([x \in 1..Len(c.texts[i]) |-> c.chars[c.texts[i][x]]])
WindowsAllowed(c) == \A i \in 1..Len(c.tokens) : c.out[i] = WindowsOf(c.tokens[i], c.n[i])
=============================================================================
