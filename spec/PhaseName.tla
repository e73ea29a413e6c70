------------------------------ MODULE PhaseName ------------------------------
(***************************************************************************)
(* How a seismic phase name is read, leg by leg, from left to right.       *)
(*                                                                         *)
(* The reader is a machine: `pos` is the next character of `name`, `legs`  *)
(* what was read so far, `status` whether the name was refused.  There is  *)
(* one action per kind of leg.  Names are TLA+ strings; TLC lets Len,      *)
(* SubSeq and \o work on them.                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Char(s, i) == IF i < 1 \/ i > Len(s) THEN "" ELSE SubSeq(s, i, i)
Slice(s, i, n) == IF i + n - 1 > Len(s) THEN "" ELSE SubSeq(s, i, i + n - 1)
EndsWith(s, t) == /\ Len(s) >= Len(t)
                  /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o Concat(Tail(ss))

OneLetter == {"K", "k", "I", "i", "J", "p", "s", "m", "c"}
Body == {"P", "S"}
\* What may follow a P or S leg that is only one letter long.
AfterBody == {"P", "S", "K", "m", "c", "^", "v"}
Suffix == {"g", "b", "n"}
Bounce == {"^", "v"}
Boundary == {"m", "c", "i"}
DepthChars == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "."}

\* The longest run of depth characters starting at i.
RECURSIVE DepthEnd(_, _)
DepthEnd(s, i) == IF Char(s, i) \in DepthChars THEN DepthEnd(s, i + 1) ELSE i

VARIABLES name, pos, legs, status
nameVars == <<name, pos, legs, status>>

StartReading(n) == /\ name = n
                   /\ pos = 1
                   /\ legs = <<>>
                   /\ status = "reading"

Take(n) == /\ legs' = Append(legs, Slice(name, pos, n))
           /\ pos' = pos + n
           /\ UNCHANGED <<name, status>>
Refuse == /\ status' = "refused"
          /\ UNCHANGED <<name, pos, legs>>

C == Char(name, pos)
N == Char(name, pos + 1)
Reading == status = "reading" /\ pos <= Len(name)

SurfaceWave == /\ Reading /\ pos = 1 /\ EndsWith(name, "kmps")
               /\ Take(Len(name))
InName == Reading /\ ~ EndsWith(name, "kmps")
Letter == InName /\ C \in OneLetter /\ Take(1)
PlainBody == /\ InName /\ C \in Body
             /\ N = "" \/ N \in AfterBody \/ N \in DepthChars
             /\ Take(1)
CrustOrHead == InName /\ C \in Body /\ N \in Suffix /\ Take(2)
Diffracted == InName /\ C \in Body /\ Slice(name, pos + 1, 4) = "diff"
              /\ Take(5)
BadBody == /\ InName /\ C \in Body
           /\ ~ (N = "" \/ N \in AfterBody \cup DepthChars \cup Suffix)
           /\ Slice(name, pos + 1, 4) # "diff"
           /\ Refuse
BounceNamed == InName /\ C \in Bounce /\ N \in Boundary /\ Take(2)
BounceDepth == /\ InName /\ C \in Bounce /\ N \in DepthChars
               /\ Take(DepthEnd(name, pos + 1) - pos)
BadBounce == /\ InName /\ C \in Bounce /\ N \notin Boundary \cup DepthChars
             /\ Refuse
Depth == /\ InName /\ C \in DepthChars
         /\ Take(DepthEnd(name, pos) - pos)
NoLeg == /\ InName
         /\ C \notin OneLetter \cup Body \cup Bounce \cup DepthChars
         /\ Refuse
Finish == /\ status = "reading" /\ pos > Len(name)
          /\ status' = "read"
          /\ legs' = Append(legs, "END")
          /\ UNCHANGED <<name, pos>>

ReadLeg == \/ SurfaceWave \/ Letter \/ PlainBody \/ CrustOrHead \/ Diffracted
           \/ BadBody \/ BounceNamed \/ BounceDepth \/ BadBounce \/ Depth
           \/ NoLeg \/ Finish

Done == status \in {"read", "refused"}

------------------------------------------------------------------------------
(* Properties of the reader itself. *)
Legs == IF status = "read" THEN SubSeq(legs, 1, Len(legs) - 1) ELSE legs
\* Nothing is lost, repeated or reordered.
Faithful == Concat(Legs) = SubSeq(name, 1, pos - 1)
LegSet(l) ==
    \/ l \in OneLetter \cup Body
    \/ Len(l) = 2 /\ Char(l, 1) \in Body /\ Char(l, 2) \in Suffix
    \/ l \in {"Pdiff", "Sdiff"}
    \/ Len(l) = 2 /\ Char(l, 1) \in Bounce /\ Char(l, 2) \in Boundary
    \/ Len(l) >= 2 /\ Char(l, 1) \in Bounce /\ DepthEnd(l, 2) = Len(l) + 1
    \/ Len(l) >= 1 /\ DepthEnd(l, 1) = Len(l) + 1
    \/ EndsWith(l, "kmps")
EveryLegIsALeg == \A i \in 1..Len(Legs) : LegSet(Legs[i])
\* A depth is read whole: no two depths stand next to each other.
IsDepth(l) == l # "" /\ Char(l, Len(l)) \in DepthChars
WholeDepths == \A i \in 1..(Len(Legs) - 1) :
                   IsDepth(Legs[i]) => Char(Legs[i + 1], 1) \notin DepthChars
\* The reader never gets stuck and is never in two minds.
NeverStuck == Done \/ ENABLED ReadLeg
OneWay == Cardinality({a \in 1..12 :
    CASE a = 1 -> ENABLED SurfaceWave [] a = 2 -> ENABLED Letter
      [] a = 3 -> ENABLED PlainBody   [] a = 4 -> ENABLED CrustOrHead
      [] a = 5 -> ENABLED Diffracted  [] a = 6 -> ENABLED BadBody
      [] a = 7 -> ENABLED BounceNamed [] a = 8 -> ENABLED BounceDepth
      [] a = 9 -> ENABLED BadBounce   [] a = 10 -> ENABLED Depth
      [] a = 11 -> ENABLED NoLeg      [] a = 12 -> ENABLED Finish}) <= 1

------------------------------------------------------------------------------
(* Names that stand for a set of phases. *)
RECURSIVE Lower(_)
LowerOf(c) == CASE c = "T" -> "t" [] c = "P" -> "p" [] c = "S" -> "s"
                [] c = "B" -> "b" [] c = "A" -> "a" [] c = "I" -> "i"
                [] c = "C" -> "c" [] c = "L" -> "l" [] OTHER -> c
Lower(s) == IF s = "" THEN "" ELSE LowerOf(Char(s, 1)) \o
                                   Lower(SubSeq(s, 2, Len(s)))

DirectP == {"p", "P", "Pn", "Pdiff", "PKP", "PKiKP", "PKIKP"}
DirectS == {"s", "S", "Sn", "Sdiff", "SKS", "SKIKS"}
DepthP == {"PcP", "pP", "pPdiff", "pPKP", "pPKIKP", "pPKiKP",
           "sP", "sPdiff", "sPKP", "sPKIKP", "sPKiKP"}
DepthS == {"sS", "sSdiff", "sSKS", "sSKIKS", "ScS", "pS", "pSdiff", "pSKS",
           "pSKIKS"}
Mixed == {"ScP", "SKP", "SKIKP", "PKKP", "PKIKKIKP", "SKKP", "SKIKKIKP",
          "PP", "PKPPKP", "PKIKPPKIKP"}
Rest == {"SKiKP", "PP", "ScS", "PcS", "PKS", "PKIKS", "PKKS", "PKIKKIKS",
         "SKKS", "SKIKKIKS", "SKSSKS", "SKIKSSKIKS", "SS", "SP", "PS"}

StandsFor(n) ==
    LET l == Lower(n) IN
    CASE l = "ttp" -> DirectP
      [] l = "tts" -> DirectS
      [] l = "ttp+" -> DirectP \cup DepthP
      [] l = "tts+" -> DirectS \cup DepthS
      [] l = "ttbasic" -> DirectP \cup DirectS \cup DepthP \cup DepthS
                          \cup Mixed
      [] l = "ttall" -> DirectP \cup DirectS \cup DepthP \cup DepthS
                        \cup Mixed \cup Rest
      [] OTHER -> {n}
ListStandsFor(ns) == UNION {StandsFor(ns[i]) : i \in 1..Len(ns)}
=============================================================================
