----------------------------- MODULE VelocityMC ------------------------------
(* All files of up to MaxLines lines over an alphabet of lines, and what the *)
(* reader makes of them; files are printed to be replayed into the code.     *)
EXTENDS Velocity, TLC
CONSTANTS MaxLines
N(x) == <<10 * x>>
L4(d, p, s, r) == <<N(d), N(p), N(s), N(r)>>
Alphabet == {
    L4(0, 5800, 3400, 2700), L4(0, 6100, 3400, 2700), L4(20000, 6500, 3800, 2900),
    L4(20000, 6500, 3800, 3300), L4(20000, 8000, 0, 3300), L4(40000, 8100, 0, 3400),
    L4(40000, 8100, 4500, 3400), L4(40000, 3000, 3001, 3400), L4(90000, 3000, 3000, 3400),
    <<N(90000), N(8200), N(4600)>>, <<N(90000), N(8200), N(4600), N(3400), N(1000)>>,
    <<N(90000), <<>>, N(4600), N(3400)>>, <<>>}
VARIABLES lines, f
Init == lines = <<>> /\ f = StartFile
Next == /\ Len(lines) < MaxLines /\ f.st = "reading"
        /\ \E l \in Alphabet :
             /\ lines' = Append(lines, l)
             \* depths in a file do not fall
             /\ ~ (Good(l) /\ f.row # NoRow /\ l[1][1] < f.row.d)
             /\ f' = ReadLine(f, l)
Spec == Init /\ [][Next]_<<lines, f>>
\* One layer per pair of lines at different depths; no gaps, no overlaps.
Inv ==
    /\ \A k \in 1..Len(f.layers) : f.layers[k][1] < f.layers[k][2]
    /\ \A k \in 1..Len(f.layers) - 1 : f.layers[k][2] = f.layers[k + 1][1]
    /\ f.layers # <<>> =>
         /\ Radius(f.layers) = f.row.d
         /\ f.layers[1][1] = lines[1][1][1]
         /\ LET D == Discons(f.layers) IN
            \A k \in 1..Len(D) - 1 : D[k] < D[k + 1]
         /\ Moho(f.layers) \in {0} \cup {f.layers[k][2] : k \in Jumps(f.layers)}
         /\ CMB(f.layers) # IOCB(f.layers) \/ CMB(f.layers) = Radius(f.layers)
    /\ f.st = "reading" => f.at = Len(lines) + 1
Out == lines = <<>> \/ PrintT(<<"FILE", f.st, lines>>)
==============================================================================
