------------------------------- MODULE Words -------------------------------
(* 64-bit words.  TLC integers are 32-bit, so a word is a tuple of four      *)
(* 16-bit limbs, least significant limb first.                               *)
EXTENDS Integers, Sequences, Bitwise

B16 == 65536

W0 == <<0, 0, 0, 0>>
W8 == <<8, 0, 0, 0>>
WNeg8 == <<65528, 65535, 65535, 65535>>
WOfInt(n) == <<n % B16, n \div B16, 0, 0>>       \* 0 <= n < 2^31

IsWord(w) == DOMAIN w = 1..4 /\ \A i \in 1..4 : w[i] \in 0..65535

WAdd(a, b) ==
  LET s1 == a[1] + b[1]
      s2 == a[2] + b[2] + (s1 \div B16)
      s3 == a[3] + b[3] + (s2 \div B16)
      s4 == a[4] + b[4] + (s3 \div B16)
  IN <<s1 % B16, s2 % B16, s3 % B16, s4 % B16>>

WNot(a) == <<65535 - a[1], 65535 - a[2], 65535 - a[3], 65535 - a[4]>>
WNeg(a) == WAdd(WNot(a), <<1, 0, 0, 0>>)
WSub(a, b) == WAdd(WAdd(a, WNot(b)), <<1, 0, 0, 0>>)     \* a - b
WAnd(a, b) == <<a[1] & b[1], a[2] & b[2], a[3] & b[3], a[4] & b[4]>>
WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>

WSign(a) == a[4] >= 32768
WZero(a) == a = W0
WInc(a, k) == WAdd(a, <<k, 0, 0, 0>>)

\* a < b, unsigned
WLess(a, b) ==
  \/ a[4] < b[4]
  \/ a[4] = b[4] /\ a[3] < b[3]
  \/ a[4] = b[4] /\ a[3] = b[3] /\ a[2] < b[2]
  \/ a[4] = b[4] /\ a[3] = b[3] /\ a[2] = b[2] /\ a[1] < b[1]

\* byte i (0..7) of a word, little endian
WByte(w, i) == LET l == w[(i \div 2) + 1] IN IF i % 2 = 0 THEN l % 256 ELSE l \div 256

\* word from bytes f(0) .. f(7)
WFrom8(f(_)) == <<f(0) + 256 * f(1), f(2) + 256 * f(3),
                  f(4) + 256 * f(5), f(6) + 256 * f(7)>>

\* The word as a memory address: small iff below 2^16
IsSmall(w) == w[2] = 0 /\ w[3] = 0 /\ w[4] = 0
=============================================================================
