------------------------------ MODULE StyxEmbed ------------------------------
(***************************************************************************)
(* Schemas embedded in binaries: a machine that scans bytes for blobs.     *)
(* What the bytes of a payload decompress to, and the hash of that, are    *)
(* facts about LZ4 and BLAKE3 that come with the record:                   *)
(*   <<start, length, decompresses, length of text, hash, UTF-8?, text>>   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Magic2 == <<83, 84, 89, 88, 95, 83, 67, 72, 69, 77, 65, 95, 86, 50, 0, 0>>
Magic1 == <<83, 84, 89, 88, 95, 83, 67, 72, 69, 77, 65, 83, 95, 86, 49, 0>>

Huge == 1000000000
U16(d, p) == d[p] + 256 * d[p + 1]
U32(d, p) == IF U16(d, p + 2) > 10000 THEN Huge ELSE U16(d, p) + 65536 * U16(d, p + 2)

Least(S) == CHOOSE x \in S : \A y \in S : x <= y
\* the first occurrence of a magic number at or after p within [lo, hi]; 0 when there is none
Find(d, p, hi, magic) ==
  LET S == {q \in p..(hi - 15) : d[q] = 83 /\ SubSeq(d, q, q + 15) = magic} IN IF S = {} THEN 0 ELSE Least(S)

\* one schema whose header starts at p: [ok, text, next]
Schema(d, p, hi, facts) ==
  LET no == [ok |-> FALSE, text |-> <<>>, next |-> 0] IN
  IF p + 39 > hi THEN no
  ELSE LET n == U32(d, p)
           c == U32(d, p + 4)
           hash == SubSeq(d, p + 8, p + 39)
           s == p + 40
       IN IF c = Huge \/ s + c - 1 > hi THEN no
          ELSE LET j == CHOOSE j \in 1..Len(facts) : facts[j][1] = s - 1 /\ facts[j][2] = c
                   f == facts[j]
               IN IF f[3] /\ f[4] = n /\ f[5] = hash /\ f[6] THEN [ok |-> TRUE, text |-> f[7], next |-> s + c] ELSE no

Blob2(d, m, hi, facts) == LET r == Schema(d, m + 16, hi, facts) IN [ok |-> r.ok, texts |-> <<r.text>>]

RECURSIVE Many(_, _, _, _, _, _)
Many(d, p, hi, facts, n, got) ==
  IF n = 0 THEN [ok |-> TRUE, texts |-> got]
  ELSE LET r == Schema(d, p, hi, facts) IN
       IF r.ok THEN Many(d, r.next, hi, facts, n - 1, Append(got, r.text)) ELSE [ok |-> FALSE, texts |-> <<>>]
\* the older form: a count, then that many schemas; all or none
Blob1(d, m, hi, facts) == IF m + 17 > hi THEN [ok |-> FALSE, texts |-> <<>>] ELSE Many(d, m + 18, hi, facts, U16(d, m + 16), <<>>)

(* the scanner: form looked for, position, what was found *)
Scanner(lo) == [form |-> 2, at |-> lo, found |-> <<>>]
Done(s) == s.form = 0
Scan(s, d, lo, hi, facts) ==
  LET m == Find(d, s.at, hi, IF s.form = 2 THEN Magic2 ELSE Magic1)
      b == IF s.form = 2 THEN Blob2(d, m, hi, facts) ELSE Blob1(d, m, hi, facts)
  IN IF m = 0 THEN (IF s.form = 2 THEN [s EXCEPT !.form = 1, !.at = lo] ELSE [s EXCEPT !.form = 0])
     ELSE [s EXCEPT !.at = m + 1, !.found = IF b.ok THEN @ \o b.texts ELSE @]

\* object files: the first section for schemas that lies in the file, else all of it
RECURSIVE Place(_, _)
Place(sections, n) ==
  IF sections = <<>> THEN <<1, n>>
  ELSE LET s == sections[1] IN IF s[3] THEN <<s[1] + 1, s[1] + s[2]>> ELSE Place(Tail(sections), n)
=============================================================================
