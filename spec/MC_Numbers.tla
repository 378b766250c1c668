----------------------------- MODULE MC_Numbers -----------------------------
(* Printed numbers and tables (C22), over all short decimals.               *)
(*                                                                          *)
(* JudgeText.tla says how a number is printed by constructing the text.     *)
(* Here every text is read back: it has to show the nearest decimal with    *)
(* the wanted number of digits, in the right notation, and so on.  The      *)
(* texts are printed, to be compared with the code's.                       *)
EXTENDS JudgeText, Json, IOUtils, SequencesExt, TLC

Conf == IF "MODEL" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.MODEL)
        ELSE [modes |-> << "number", "table" >>, m |-> 120, e |-> 7, p |-> 5, n |-> 23]

VARIABLES mode, x, over
vars == << mode, x, over >>

Round(k) == {k - 1, k, k + 1, k \div 2, (k \div 2) - 1, (k \div 2) + 1, k - 5, k - 45, k - 50, k + 5}     \* around a power of ten
Mantissas == (1 .. Conf.m) \cup Round(1000) \cup Round(10000) \cup Round(100000) \cup {123, 250, 125, 375, 1005, 1015, 1025, 12345, 67895, 99949}
Pattern == {"plus", "minus", "both", "growing"}
Entry(pat, k) == CASE pat = "plus" -> k [] pat = "minus" -> -k [] pat = "both" -> IF k % 2 = 0 THEN -k ELSE k * 11
                   [] OTHER -> IF k % 3 = 0 THEN -k * k * k ELSE k * k
Init == /\ mode \in ToSet(Conf.modes)
        /\ x \in IF mode = "number" THEN {[neg |-> (m + e) % 2 = 0, m |-> m, e |-> e, p |-> p] :
                                            m \in Mantissas \cup {0}, e \in -Conf.e .. Conf.e, p \in 1 .. Conf.p}
                 ELSE {[pat |-> pat, n |-> n, left |-> l, right |-> r, indent |-> i, wide |-> w] :
                         pat \in Pattern, n \in 0 .. Conf.n, l \in {0, 1, 3}, r \in {0, 1, 2}, i \in {0, 2}, w \in {0, 4}}
        /\ over = FALSE

(* ---- numbers: +-m 10^e ---- *)
Num == LET v == IF x.e >= 0 THEN Mul(FromInt(x.m), Ten(x.e)) ELSE FromInt(x.m) IN IF x.neg THEN Opp(v) ELSE v
Den == IF x.e >= 0 THEN FromInt(1) ELSE Ten(-x.e)
Guess == x.e + Len(IntText(x.m)) - 1
Texts == NumTexts(Num, Den, Guess, x.p)

(* ---- tables of integers ---- *)
Cell(v) == LET t == IntText(v) IN IF Len(t) >= x.wide THEN t ELSE Spaces(x.wide - Len(t)) \o t
Sheet == [cells |-> [k \in 1 .. x.n |-> Cell(Entry(x.pat, k))], neg |-> [k \in 1 .. x.n |-> Entry(x.pat, k) < 0],
          left |-> x.left, right |-> x.right, indent |-> x.indent]
Page == Spaces(x.indent) \o Table(Sheet, 1)

Done == /\ ~over /\ over' = TRUE
        /\ PrintT(ToJson(IF mode = "number" THEN [mode |-> mode, x |-> x, texts |-> SetToSeq(Texts)]
                         ELSE [mode |-> mode, x |-> x, values |-> [k \in 1 .. x.n |-> Entry(x.pat, k)], texts |-> << Page >>]))
        /\ UNCHANGED << mode, x >>
Spec == Init /\ [][Done]_vars

(* ---- reading a text back ---- *)
IsDigit(c) == c \in 48 .. 57
RECURSIVE IntOf(_, _)
IntOf(cs, acc) == IF cs = << >> THEN acc
                  ELSE IntOf(Tail(cs), IF IsDigit(cs[1]) THEN Add(Mul(acc, FromInt(10)), FromInt(cs[1] - 48)) ELSE acc)
At(cs, c) == IF \E k \in 1 .. Len(cs) : cs[k] = c THEN CHOOSE k \in 1 .. Len(cs) : cs[k] = c ELSE 0
Read(cs) ==
  LET minus == Len(cs) > 0 /\ cs[1] = 45
      body == IF minus THEN Tail(cs) ELSE cs
      cut == At(body, 101)
      man == IF cut = 0 THEN body ELSE SubSeq(body, 1, cut - 1)
      expo == IF cut = 0 THEN << >> ELSE SubSeq(body, cut + 1, Len(body))
      point == At(man, 46)
      ev == SmallInt(IntOf(expo, << >>)) * (IF expo # << >> /\ expo[1] = 45 THEN -1 ELSE 1)
  IN  [minus |-> minus, int |-> IntOf(man, << >>), exp |-> ev - (IF point = 0 THEN 0 ELSE Len(man) - point), scientific |-> cut # 0,
       digits |-> SelectSeq(man, IsDigit), clean |-> \A k \in 1 .. Len(cs) : IsDigit(cs[k]) \/ cs[k] \in {43, 45, 46, 101}]
RECURSIVE Strip(_)
Strip(ds) == IF ds # << >> /\ ds[1] = 48 THEN Strip(Tail(ds)) ELSE ds
Shift == 60
Mag(t) == Mul(Read(t).int, Ten(Read(t).exp + Shift))               \* |value| 10^60
Exact == Mul(FromInt(x.m), Ten(x.e + Shift))
Unit(t) == LET r == Read(t) IN Ten(r.exp + Shift)                  \* one in the last place shown

Is(m) == mode = m /\ over
Known == Is("number") => Texts # {} /\ \A t \in Texts : Read(t).clean
Nearest == Is("number") => \A t \in Texts : Le(Mul(FromInt(1000), Abs(Sub(Mag(t), Exact))), Mul(FromInt(501), Unit(t)))
Significant == Is("number") /\ x.m # 0 => \A t \in Texts : Len(Strip(Read(t).digits)) = x.p
Signed == Is("number") => \A t \in Texts : Read(t).minus = (x.neg /\ x.m # 0)
Notation == Is("number") /\ x.m # 0 => \A t \in Texts :
  LET big == Le(Ten(x.p + Shift), Mag(t))
      small == Lt(Mag(t), Ten(Shift - 2))
  IN  Read(t).scientific = (big \/ small)
TheOnly == Is("number") => Cardinality(Texts) = 1 \/
  \* two nearest ones only in the middle between them
  /\ Cardinality(Texts) = 2
  /\ \E s, t \in Texts : Add(Mag(s), Mag(t)) = Mul(FromInt(2), Exact)
Again == Is("number") /\ x.m # 0 => \A t \in Texts :
  LET r == Read(t) IN
  NumTexts(IF r.exp >= 0 THEN Mul(r.int, Ten(r.exp)) ELSE r.int, IF r.exp >= 0 THEN FromInt(1) ELSE Ten(-r.exp), Guess, x.p)
    = {IF r.minus THEN Tail(t) ELSE t}
Ordered == Is("number") /\ x.m # 0 =>
  LET y == NumTexts(IF x.e >= 0 THEN Mul(FromInt(x.m + 1), Ten(x.e)) ELSE FromInt(x.m + 1), Den, Guess, x.p) IN
  \A s \in Texts, t \in y : Le(Mag(s), Mag(t))

(* ---- reading a table back ---- *)
RECURSIVE Lines(_, _)
Lines(cs, cur) == IF cs = << >> THEN << cur >> ELSE IF cs[1] = 10 THEN << cur >> \o Lines(Tail(cs), << >>) ELSE Lines(Tail(cs), Append(cur, cs[1]))
RECURSIVE Words(_, _)
Words(cs, cur) == LET end == IF cur = << >> THEN << >> ELSE << cur >> IN
                  IF cs = << >> THEN end ELSE IF cs[1] = 32 THEN end \o Words(Tail(cs), << >>) ELSE Words(Tail(cs), Append(cur, cs[1]))
RECURSIVE Flat(_)
Flat(s) == IF s = << >> THEN << >> ELSE s[1] \o Flat(Tail(s))
Apart == x.left + x.right >= 2                                     \* some space between any two values
TenWide == Is("table") /\ Apart => LET ls == Lines(Page, << >>) IN
  /\ Len(ls) = IF x.n = 0 THEN 1 ELSE ((x.n - 1) \div 10) + 1
  /\ \A k \in 1 .. Len(ls) : Len(Words(ls[k], << >>)) = IF k < Len(ls) THEN 10 ELSE x.n - 10 * (k - 1)
  /\ \A k \in 1 .. Len(ls) : Len(ls[k]) >= x.indent /\ SubSeq(ls[k], 1, x.indent) = Spaces(x.indent)
InOrder == Is("table") /\ Apart => LET ls == Lines(Page, << >>) IN
  Flat([k \in 1 .. Len(ls) |-> Words(ls[k], << >>)]) = [k \in 1 .. x.n |-> IntText(Entry(x.pat, k))]
=============================================================================
