------------------------------- MODULE Header -------------------------------
(* What a collection created from any bytes is. The number at offset "at" of    *)
(* the bytes claims a length (or a count of elements of es bytes) of the bytes  *)
(* which follow. Numbers of 32 bits are pairs <<high, low>> of 16 bits.         *)
EXTENDS Integers, Sequences
U32(b, i) == <<b[i + 2] + 256 * b[i + 3], b[i] + 256 * b[i + 1]>>
Readable(b, at) == at + 4 <= Len(b)
Small(w) == w[1] = 0
(* the claimed length, when it is less than 2^24, or -1 *)
Claimed(c) == LET w == U32(c.b, c.at + 1) IN
              IF ~Small(w) THEN -1 ELSE IF c.isCount = 1 THEN w[2] * c.es ELSE w[2]
(* v * es and more than 32 bits *)
Left(c) == Len(c.b) - c.at - 4
Fits(c) == Readable(c.b, c.at) /\ Claimed(c) # -1 /\ Claimed(c) <= Left(c)
Count(c) == IF c.isCount = 1 THEN U32(c.b, c.at + 1)[2] ELSE IF c.es > 0 THEN Claimed(c) \div c.es ELSE 0
(* elements share the claimed length *)
Width(c) == IF Count(c) = 0 THEN 0 ELSE Claimed(c) \div Count(c)
Fixed(c) == Width(c) # 0
Base(c) == c.at + 4
Slice(c, o, n) == SubSeq(c.b, Base(c) + o + 1, Base(c) + o + n)
(* an item in the place of key, as far as it can be known *)
Key(w) == IF w[1] > 31 THEN -1 ELSE w[1] * 65536 + w[2]
There(c, o, n) == o >= 0 /\ n >= 0 /\ Base(c) + o + n <= Len(c.b)
=============================================================================
