------------------------------ MODULE JudgeText -----------------------------
(* Judges printed numbers and texts (property C22).  A text is a sequence   *)
(* of character codes.  A number that is printed is given exactly, as       *)
(* num / 2^k (num a BigNum integer), so numbers of any magnitude can be     *)
(* judged.                                                                  *)
EXTENDS JudgeGeometry

(* ---- decimal integers ---- *)
RECURSIVE Ten(_)
Ten(k) == IF k = 0 THEN FromInt(1) ELSE IF k % 2 = 1 THEN Mul(FromInt(10), Ten(k - 1)) ELSE LET h == Ten(k \div 2) IN Mul(h, h)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN FromInt(1) ELSE IF k % 2 = 1 THEN Mul(FromInt(2), Pow2(k - 1)) ELSE LET h == Pow2(k \div 2) IN Mul(h, h)

SmallInt(b) == IF b = << >> THEN 0 ELSE IF Len(b) = 1 THEN b[1] ELSE b[1] + 32768 * b[2]
RECURSIVE Digits(_, _)
Digits(b, n) ==        \* the last n decimal digits of b >= 0, as character codes
  IF n = 0 THEN << >> ELSE LET q == Div(b, FromInt(10)) IN Append(Digits(q, n - 1), 48 + SmallInt(Sub(b, Mul(q, FromInt(10)))))
RECURSIVE IntText(_)
IntText(i) == IF i < 0 THEN << 45 >> \o IntText(-i) ELSE IF i < 10 THEN << 48 + i >> ELSE Append(IntText(i \div 10), 48 + (i % 10))

Minus == << 45 >>
Dot == << 46 >>
Zeros(k) == [i \in 1 .. k |-> 48]
Spaces(k) == [i \in 1 .. k |-> 32]

\* the layout of p digits with the decimal point after the first digit times 10^e
Layout(ds, e, p) ==
  IF e < -2 \/ e >= p
  THEN << ds[1] >> \o (IF p > 1 THEN Dot \o Tail(ds) ELSE << >>) \o << 101 >> \o (IF e > 0 THEN << 43 >> ELSE << >>) \o IntText(e)
  ELSE IF e = p - 1 THEN ds
  ELSE IF e >= 0 THEN SubSeq(ds, 1, e + 1) \o Dot \o SubSeq(ds, e + 2, p)
  ELSE << 48 >> \o Dot \o Zeros(-(e + 1)) \o ds

(* x = num / den > 0.  A p-digit decimal D * 10^(e-p+1) represents it if it is as near as any other (slack for *)
(* the rounding of the code's own arithmetic: a thousandth of a unit around the middle of two neighbours).     *)
Candidates(num, den, e, p) ==
  LET k == e - p + 1
      n == IF k >= 0 THEN num ELSE Mul(num, Ten(-k))
      d == IF k >= 0 THEN Mul(den, Ten(k)) ELSE den
      q == Div(n, d)
      r == Sub(n, Mul(q, d))                       \* 0 <= r < d
      r2 == Mul(FromInt(2000), r)
      mid == Mul(FromInt(1000), d)
      slack == Mul(FromInt(2), d)
      lower == Le(r2, Add(mid, slack))
      upper == Le(Sub(mid, slack), r2)
  IN  (IF lower THEN {q} ELSE {}) \cup (IF upper THEN {Add(q, FromInt(1))} ELSE {})

\* the exponent of the leading digit: 10^e <= x < 10^(e+1), near the given guess
Leading(num, den, guess) ==
  CHOOSE e \in guess - 3 .. guess + 3 :
     LET ge(k) == IF k >= 0 THEN Le(Mul(den, Ten(k)), num) ELSE Le(den, Mul(num, Ten(-k)))
     IN  ge(e) /\ ~ge(e + 1)

NumTexts(num, den, guess, p) ==        \* the allowed texts of a number
  IF num = Zero THEN {<< 48 >> \o Dot \o Zeros(p - 1)}
  ELSE LET sign == IF IsNegative(num) THEN Minus ELSE << >>
           e == Leading(Abs(num), den, guess)
       IN  {sign \o (IF q = Ten(p) THEN Layout(Digits(Ten(p - 1), p), e + 1, p) ELSE Layout(Digits(q, p), e, p)) :
              q \in Candidates(Abs(num), den, e, p)}

\* v is [num, k, guess]: the number num / 2^k
TextsOf(v, p) == NumTexts(v.num, Pow2(v.k), v.guess, p)

JudgePrecision(ev) == Flag(ev.nan /\ ev.chars # << 78, 97, 78 >>, "C22:NaN not printed as NaN")
                      \cup Flag(~ev.nan /\ ev.chars \notin TextsOf(ev.x, ev.p), "C22:number printed wrongly")

(* ---- the numbers printed between parentheses, in order ---- *)
RECURSIVE Tokens(_, _, _, _, _)
Tokens(cs, i, inside, cur, acc) ==
  LET flush == IF cur = << >> THEN acc ELSE Append(acc, cur) IN
  IF i > Len(cs) THEN flush
  ELSE CASE cs[i] = 40 -> Tokens(cs, i + 1, TRUE, << >>, flush)
         [] cs[i] = 41 -> Tokens(cs, i + 1, FALSE, << >>, flush)
         [] cs[i] \in {32, 44} -> Tokens(cs, i + 1, inside, << >>, flush)
         [] OTHER -> Tokens(cs, i + 1, inside, IF inside THEN Append(cur, cs[i]) ELSE << >>, acc)

JudgeRepr(ev) ==
  LET toks == Tokens(ev.chars, 1, FALSE, << >>, << >>) IN
  Flag(Len(toks) # Len(ev.xs) \/ \E k \in 1 .. Len(ev.xs) : k <= Len(toks) /\ toks[k] \notin TextsOf(ev.xs[k], 5),
       "C22:printed form does not show the current position and direction")

(* ---- the ten column table ---- *)
\* ev.cells: the formatted values; ev.neg: which are negative; ev.left, ev.right, ev.indent
RECURSIVE Table(_, _)
Table(ev, k) ==
  IF k > Len(ev.cells) THEN << >>
  ELSE LET start == (k - 1) % 10 = 0
           pad == IF ev.neg[k] THEN ev.left - 1 ELSE ev.left
       IN  (IF start /\ k > 1 THEN << 10 >> \o Spaces(ev.indent) ELSE << >>)
           \o Spaces(IF pad < 0 THEN 0 ELSE pad) \o ev.cells[k]
           \o (IF k % 10 = 0 THEN << >> ELSE Spaces(ev.right)) \o Table(ev, k + 1)
\* ---- the spaced form of an array: ev.cells the formatted values, ev.width the length of a line, ev.fits: one value fits in it ----
Blank(c) == c \in {32, 10}
Sorted(S) == SetToSortSeq(S, LAMBDA x, y : x < y)
WordsOf(cs) ==     \* the maximal runs of characters that are no blanks, in order
  LET heads == Sorted({i \in 1 .. Len(cs) : ~Blank(cs[i]) /\ (i = 1 \/ Blank(cs[i - 1]))})
      tails == Sorted({i \in 1 .. Len(cs) : ~Blank(cs[i]) /\ (i = Len(cs) \/ Blank(cs[i + 1]))})
  IN  [k \in 1 .. Len(heads) |-> SubSeq(cs, heads[k], tails[k])]
NoBlanks(cs) == SelectSeq(cs, LAMBDA c : ~Blank(c))
Breaks(cs) == {0, Len(cs) + 1} \cup {k \in 1 .. Len(cs) : cs[k] = 10}
JudgeSpaced(ev) ==
  LET cells == [k \in 1 .. Len(ev.cells) |-> NoBlanks(ev.cells[k])]
      b == Sorted(Breaks(ev.chars))
  IN  Flag(IF ev.left + ev.right > 0 THEN WordsOf(ev.chars) # cells ELSE NoBlanks(ev.chars) # FlattenSeq(cells),
           "C22:spaced form does not print every value")
      \cup Flag(ev.fits /\ \E k \in 1 .. Len(b) - 1 : b[k + 1] - b[k] - 1 > ev.width, "C22:spaced form has a line that is too long")

JudgeTable(ev) == Flag(ev.chars # Spaces(ev.indent) \o Table(ev, 1), "C22:table printed wrongly")
=============================================================================
