--------------------------- MODULE MersenneVectors ---------------------------
(* Mersenne against published results: the outputs of the authors' reference  *)
(* programs (seed 5489 and its 10000th output, the key array 0x123, 0x234,    *)
(* 0x345, 0x456 resp. 0x12345, 0x23456, 0x34567, 0x45678).                    *)
EXTENDS Mersenne, TLC

L4(a, b, c, d) == <<d, c, b, a>>
Seed(w) == Word(LW(w), 5489)
Keys(w) == IF w = 32 THEN << <<291, 0>>, <<564, 0>>, <<837, 0>>, <<1110, 0>> >>
           ELSE << <<9029, 1, 0, 0>>, <<13398, 2, 0, 0>>, <<17767, 3, 0, 0>>, <<22136, 4, 0, 0>> >>
KeySeed(w) == IF w = 32 THEN Word(2, 19650218) ELSE Word(4, 19650218)

VARIABLES w, step, win
vars == <<w, step, win>>

First(ww, s, c) == Outputs(ww, Extend(ww, s, c), c)
ASSUME First(32, Init0(32, Seed(32)), 3) = << <<47964, 53393>>, <<40694, 8878>>, <<64238, 59361>> >>
ASSUME First(64, Init0(64, Seed(64)), 3) = << <<44710, 63222, 6428, 51565>>, <<3868, 35784, 31431, 16415>>, <<22520, 44004, 36022, 46574>> >>
ASSUME First(32, InitKeys(32, KeySeed(32), Keys(32)), 3) = << <<13859, 16290>>, <<37727, 14586>>, <<56376, 7282>> >>
ASSUME First(64, InitKeys(64, KeySeed(64), Keys(64)), 3) = << <<40319, 10837, 39765, 25815>>, <<57920, 23150, 29286, 17573>>, <<4956, 15730, 63196, 60203>> >>
Final(ww) == IF ww = 32 THEN <<3803, 62922>> ELSE <<55410, 33150, 37621, 35461>>

\* the 10000th output, a block of 500 in every step
Init == w \in {32, 64} /\ step = 0 /\ win = Init0(w, Seed(w))
Next == /\ step < 20
        /\ step' = step + 1 /\ w' = w
        /\ win' = Window(w, Extend(w, win, 500))
Spec == Init /\ [][Next]_vars
TenThousandth == step = 20 => Temper(w, win[NW(w)]) = Final(w)
=============================================================================
