------------------------------ MODULE Reader ------------------------------
(* Reading a Dockerfile from a reader (C02).  The reader hands out bytes in   *)
(* pieces of any size, may be interrupted, and may fail; the text is decoded   *)
(* byte by byte, so that it cannot matter where the pieces end.                *)
EXTENDS Text

VARIABLES bytes,  \* everything there is to read
          got,    \* how many bytes have been delivered
          dec,    \* state of the decoder
          rst     \* "reading", "eof" or "failed"
rvars == <<bytes, got, dec, rst>>

(* UTF-8 decoder: need continuation bytes still missing, the first of which   *)
(* must lie in lo..hi; acc the bits so far; text the characters found          *)
Dec0 == [ok |-> TRUE, need |-> 0, lo |-> 128, hi |-> 191, acc |-> 0, text |-> <<>>]
Lead(d, need, lo, hi, acc) == [d EXCEPT !.need = need, !.lo = lo, !.hi = hi, !.acc = acc]
Feed(d, b) ==
  IF ~d.ok THEN d
  ELSE IF d.need > 0 THEN
    IF b < d.lo \/ b > d.hi THEN [d EXCEPT !.ok = FALSE]
    ELSE LET v == d.acc * 64 + (b - 128) IN
         IF d.need = 1 THEN [Dec0 EXCEPT !.text = Append(d.text, v)]
         ELSE [d EXCEPT !.need = d.need - 1, !.lo = 128, !.hi = 191, !.acc = v]
  ELSE IF b < 128 THEN [d EXCEPT !.text = Append(d.text, b)]
  ELSE IF b >= 194 /\ b <= 223 THEN Lead(d, 1, 128, 191, b - 192)
  ELSE IF b = 224 THEN Lead(d, 2, 160, 191, 0)
  ELSE IF b = 237 THEN Lead(d, 2, 128, 159, 13)
  ELSE IF b >= 225 /\ b <= 239 THEN Lead(d, 2, 128, 191, b - 224)
  ELSE IF b = 240 THEN Lead(d, 3, 144, 191, 0)
  ELSE IF b >= 241 /\ b <= 243 THEN Lead(d, 3, 128, 191, b - 240)
  ELSE IF b = 244 THEN Lead(d, 3, 128, 143, 4)
  ELSE [d EXCEPT !.ok = FALSE]
RECURSIVE FeedAll(_, _, _, _)
FeedAll(d, bs, i, j) == IF i > j THEN d ELSE FeedAll(Feed(d, bs[i]), bs, i + 1, j)
Decoded(bs) == FeedAll(Dec0, bs, 1, Len(bs))
Complete(d) == d.ok /\ d.need = 0

\* the encoding of a character, for the check that decoding is its inverse
Encode(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

RInit(bs) == bytes = bs /\ got = 0 /\ dec = Dec0 /\ rst = "reading"
Left == Len(bytes) - got
Deliver(n) == /\ rst = "reading" /\ n \in 1..Left
              /\ got' = got + n
              /\ dec' = FeedAll(dec, bytes, got + 1, got + n)
              /\ UNCHANGED <<bytes, rst>>
Interrupt == rst = "reading" /\ UNCHANGED rvars
Fail == rst = "reading" /\ rst' = "failed" /\ UNCHANGED <<bytes, got, dec>>
Eof == rst = "reading" /\ Left = 0 /\ rst' = "eof" /\ UNCHANGED <<bytes, got, dec>>

\* what the caller gets: a read error, or the outcome of parsing the text
ReadFails == rst = "failed" \/ (rst = "eof" /\ ~Complete(dec))

SplitIndependent == dec = FeedAll(Dec0, bytes, 1, got)
NeverPartial == rst = "eof" => got = Len(bytes)
DecodingInverts ==
  Complete(dec) => FlattenRec([i \in 1..Len(dec.text) |-> Encode(dec.text[i])], 1, <<>>) = SubSeq(bytes, 1, got)
RTypeOK == rst \in {"reading", "eof", "failed"} /\ got \in 0..Len(bytes)
===========================================================================
