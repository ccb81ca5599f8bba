------------------------------ MODULE UshBytes ------------------------------
(* Byte strings: everything that crosses the public interface of the shell   *)
(* is a sequence of numbers 0..255.                                          *)
EXTENDS Naturals, Integers, Sequences, SequencesExt

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

CodeOf == [c \in {SubSeq(Ascii, i, i) : i \in 1..95} |->
             31 + (CHOOSE i \in 1..95 : SubSeq(Ascii, i, i) = c)]

\* the bytes of a TLA+ string of printable characters
B(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]

NUL == 0   ETX == 3   BS == 8   TAB == 9   LF == 10   CR == 13   ESC == 27
SP == 32   QUO == 34  SLASH == 47  BSL == 92  DEL == 127  DOT == 46
CRLF == <<CR, LF>>

\* the part of a buffer that C string functions see
CStr(d) ==
  IF \E i \in 1..Len(d) : d[i] = 0
  THEN SubSeq(d, 1, (CHOOSE i \in 1..Len(d) : d[i] = 0 /\ \A j \in 1..(i-1) : d[j] # 0) - 1)
  ELSE d

StartsWith(d, p) == Len(p) <= Len(d) /\ SubSeq(d, 1, Len(p)) = p

Take(d, n) == SubSeq(d, 1, IF n < Len(d) THEN n ELSE Len(d))
Drop(d, n) == SubSeq(d, n + 1, Len(d))

Spaces(n) == [i \in 1..n |-> SP]
PadRight(d, n) == IF Len(d) >= n THEN d ELSE d \o Spaces(n - Len(d))

HexDigits == <<48,49,50,51,52,53,54,55,56,57,65,66,67,68,69,70>>
Hex2(b) == <<HexDigits[(b \div 16) + 1], HexDigits[(b % 16) + 1]>>
RECURSIVE HexN(_, _)
HexN(v, n) == IF n = 0 THEN <<>> ELSE Append(HexN(v \div 16, n - 1), HexDigits[(v % 16) + 1])

IsPrintable(b) == b >= 32 /\ b <= 126

ConcatAll(ss) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, ss)

\* last index of v in d, or 0
LastIdx(d, v) ==
  LET S == {i \in 1..Len(d) : d[i] = v}
  IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i

\* the longest common prefix of a non-empty sequence of byte strings
CommonPrefix(ss) ==
  LET first == ss[1]
      ok(n) == \A i \in 1..Len(ss) : StartsWith(ss[i], SubSeq(first, 1, n))
      n == CHOOSE n \in 0..Len(first) : ok(n) /\ (n = Len(first) \/ ~ok(n + 1))
  IN SubSeq(first, 1, n)
=============================================================================
