------------------------------- MODULE BigNum -------------------------------
(* Unbounded integers written as decimal strings, the way the contracts write them in JSON ("340282366920938463463"). TLC's own
   integers are 32 bit, so every amount in the specification is such a string. Each operator below is evaluated by the
   method of the same name in BigNum.java (java.math.BigInteger); arguments may also be TLC integers, results are always
   strings. The definitions in this file only state the arity.                                                             *)
EXTENDS Integers, Sequences

BAdd(a, b) == CHOOSE x \in {} : TRUE   \* a + b
BSub(a, b) == CHOOSE x \in {} : TRUE   \* a - b (may be negative)
BMul(a, b) == CHOOSE x \in {} : TRUE   \* a * b
BDiv(a, b) == CHOOSE x \in {} : TRUE   \* a / b rounded towards zero
BMod(a, b) == CHOOSE x \in {} : TRUE   \* a mod b
BPow(a, n) == CHOOSE x \in {} : TRUE   \* a to the n-th power
BSqrt(a)   == CHOOSE x \in {} : TRUE   \* largest s with s * s <= a
BLt(a, b)  == CHOOSE x \in {} : TRUE
BLe(a, b)  == CHOOSE x \in {} : TRUE
BEq(a, b)  == CHOOSE x \in {} : TRUE
BInt(a)    == CHOOSE x \in {} : TRUE   \* as a TLC integer
BStr(a)    == CHOOSE x \in {} : TRUE   \* canonical decimal string of a string or a TLC integer
BFits(a, n) == CHOOSE x \in {} : TRUE  \* 0 <= a < 2^n

(* Strings *)
SStarts(s, p) == CHOOSE x \in {} : TRUE  \* s starts with p
SEnds(s, p)   == CHOOSE x \in {} : TRUE  \* s ends with p
SDrop(s, n)   == CHOOSE x \in {} : TRUE  \* s without its first n characters
SCat(s, t)    == CHOOSE x \in {} : TRUE  \* s followed by t
SSplit(s, c)  == CHOOSE x \in {} : TRUE  \* the pieces of s between occurrences of c
SIsNum(s)     == CHOOSE x \in {} : TRUE  \* s is a non-empty string of digits
IsStr(v)      == CHOOSE x \in {} : TRUE  \* v is a string
SLen(s)       == CHOOSE x \in {} : TRUE  \* number of characters of s
VEq(a, b)     == CHOOSE x \in {} : TRUE  \* a = b, FALSE when they are of different types
Emit(v)       == CHOOSE x \in {} : TRUE  \* TRUE; prints v on one line
SSort(S)      == CHOOSE x \in {} : TRUE  \* the strings of set S in lexicographic order, as a sequence

BGt(a, b)  == BLt(b, a)
BGe(a, b)  == BLe(b, a)
BMin(a, b) == IF BLe(a, b) THEN a ELSE b
BMax(a, b) == IF BLe(a, b) THEN b ELSE a
BZero(a)   == BEq(a, "0")
BPos(a)    == BLt("0", a)
U128(a)    == BFits(a, 128)
BMulDiv(a, b, c) == BDiv(BMul(a, b), c)

RECURSIVE BSumFrom(_, _)
BSumFrom(s, i) == IF i > Len(s) THEN "0" ELSE BAdd(s[i], BSumFrom(s, i + 1))
BSumSeq(s) == BSumFrom(s, 1)

RECURSIVE BSumSet(_, _)
BSumSet(f, S) == IF S = {} THEN "0" ELSE LET x == CHOOSE x \in S : TRUE IN BAdd(f[x], BSumSet(f, S \ {x}))
BSumFn(f) == BSumSet(f, DOMAIN f)
=============================================================================
