------------------------------ MODULE MC_Vec ------------------------------
(***************************************************************************)
(* The representations of a 0/1 vector and their equivalence, exhaustively *)
(* for every length up to MaxLen: run-length form (RunVec), bit sequence,  *)
(* integer with a length, and the compress/decompress algorithms of the    *)
(* code written as algorithms on sequences.                                *)
(***************************************************************************)
EXTENDS RunVec, TLC
CONSTANT MaxLen
VARIABLES a, b

Bits(n) == [1..n -> {0, 1}]
\* the compression algorithm: first value, positions of the differences, length
Compress(s) ==
  LET n == Len(s)
      D == {k \in 1..(n - 1) : s[k] # s[k + 1]}
      RECURSIVE Srt(_)
      Srt(S) == IF S = {} THEN <<>> ELSE LET m == Min(S) IN <<m>> \o Srt(S \ {m})
  IN  <<s[1]>> \o Srt(D) \o <<n>>
\* the decompression algorithm of the code: fill the runs of ones, one position after another
RECURSIVE Fill(_, _, _, _, _)
Fill(c, k, prevVal, prevIdx, s) ==
  IF k > Len(c) THEN s
  ELSE IF prevVal = 0 THEN Fill(c, k + 1, 1, c[k], s)
  ELSE Fill(c, k + 1, 0, c[k], [x \in 1..Len(s) |-> IF x > prevIdx /\ x <= c[k] THEN 1 ELSE s[x]])
Decompress(c) ==
  LET n == c[Len(c)]
      z == [x \in 1..n |-> 0]
  IN  IF Len(c) = 2 THEN [x \in 1..n |-> c[1]]
      ELSE Fill(c, 2, c[1], 0, z)
RECURSIVE ToInt(_)
ToInt(s) == IF s = <<>> THEN 0 ELSE 2 * ToInt(SubSeq(s, 1, Len(s) - 1)) + s[Len(s)]
RECURSIVE FromInt(_, _)
FromInt(x, n) == IF n = 0 THEN <<>> ELSE FromInt(x \div 2, n - 1) \o <<x % 2>>
Seq2Vec(s) == Vec(Compress(s))
Expand(v) == [x \in 1..v.n |-> At(v, x - 1)]

\* every pair of vectors of equal length
Init == \E n \in 1..MaxLen : a \in Bits(n) /\ b \in Bits(n)
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>

RoundTrip ==
  /\ Decompress(Compress(a)) = a
  /\ FromInt(ToInt(a), Len(a)) = a
  /\ WFSeq(Compress(a)) /\ Expand(Seq2Vec(a)) = a
  /\ Len(Compress(a)) = Entropy(Seq2Vec(a))
Injective == a # b => /\ Compress(a) # Compress(b) /\ ToInt(a) # ToInt(b) /\ Seq2Vec(a) # Seq2Vec(b)
Pw(g(_, _)) == [x \in 1..Len(a) |-> g(a[x], b[x])]
Ops ==
  /\ Seq2Vec(Pw(And1)) = VAnd(Seq2Vec(a), Seq2Vec(b))
  /\ Seq2Vec(Pw(Or1)) = VOr(Seq2Vec(a), Seq2Vec(b))
  /\ Seq2Vec(Pw(Xor1)) = VXor(Seq2Vec(a), Seq2Vec(b))
  /\ Seq2Vec(Pw(Sub1)) = VSub(Seq2Vec(a), Seq2Vec(b))
  /\ VSome(<<Seq2Vec(a), Seq2Vec(b)>>) = VXor(Seq2Vec(a), Seq2Vec(b))
  /\ VSubset(Seq2Vec(a), Seq2Vec(b)) = (\A x \in 1..Len(a) : a[x] = 1 => b[x] = 1)
Stats ==
  LET v == Seq2Vec(a) IN
  /\ NOnes(v) = Cardinality({x \in 1..Len(a) : a[x] = 1})
  /\ Coverage(v) = Q(Cardinality({x \in 1..Len(a) : a[x] = 1}), Len(a))
  /\ Correlation(v, Seq2Vec(b)) = Q(Cardinality({x \in 1..Len(a) : a[x] = b[x]}), Len(a))
=============================================================================
