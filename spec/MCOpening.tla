----------------------------- MODULE MCOpening ------------------------------
(* Opening step by step, on all combinations of options, extensions and what *)
(* two systems make of the content; it must do what was promised, and agree  *)
(* with the decision used for judging the real code.                         *)
EXTENDS Opening, Json

CONSTANT Opens      \* the sets of orders in which a system can be opened

VARIABLES conf, i, k, res
vars == <<conf, i, k, res>>

ExtOf(e) == CASE e = "po" -> ExtPo [] e = "do" -> ExtDo [] e = "dsk" -> ExtDsk [] e = "none" -> <<>> [] OTHER -> <<46, 105, 109, 103>>
Exts == {"po", "do", "dsk", "none", "img"}
OrderOpts == {"auto", "do", "po", "raw", ""}
Systems == {"auto", "dos3", "prodos", "nosuch"}
Fac(n, s, o) == [name |-> n, seems |-> [x \in {"do", "po"} |-> x \in s], opens |-> [x \in {"do", "po"} |-> x \in o]]

Confs == [order : OrderOpts, ext : Exts, system : Systems,
          s1 : SUBSET {"do", "po"}, o1 : Opens, s2 : SUBSET {"do", "po"}, o2 : Opens]
Facs(c) == <<Fac("dos3", c.s1, c.o1), Fac("prodos", c.s2, c.o2)>>

F == Facs(conf)
OS == OrdersToTry(conf.order, ExtOf(conf.ext))

Init == conf \in Confs /\ i = 1 /\ k = 1 /\ res = "trying"

Asked(f) == conf.system \in {"auto", f.name}
Sure == conf.system # "auto" /\ Len(OS) = 1

Advance == IF k < Len(F) THEN k' = k + 1 /\ i' = i ELSE k' = 1 /\ i' = i + 1
Step == /\ res = "trying"
        /\ IF i > Len(OS) THEN res' = "refused" /\ UNCHANGED <<i, k>>
           ELSE IF ~ Asked(F[k]) THEN Advance /\ UNCHANGED res
           ELSE IF (Sure \/ F[k].seems[OS[i]]) /\ F[k].opens[OS[i]] THEN res' = "opened" /\ UNCHANGED <<i, k>>
           ELSE Advance /\ UNCHANGED res
        /\ UNCHANGED conf
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)

\* The promises.
ObeysOrder == res = "opened" /\ conf.order # "auto" => OS[i] = conf.order
ObeysSystem == res = "opened" /\ conf.system # "auto" => F[k].name = conf.system
ObeysExtension == res = "opened" /\ conf.order = "auto" =>
                    /\ conf.ext = "po" => OS[i] = "po"
                    /\ conf.ext = "do" => OS[i] = "do"
                    /\ conf.ext # "img"
Recognised == res = "opened" /\ (conf.system = "auto" \/ Len(OS) = 2) => F[k].seems[OS[i]]
FirstTaken == res = "opened" /\ conf.system = "auto" /\ k = 2 => ~ (F[1].seems[OS[i]] /\ F[1].opens[OS[i]])
DosOrderFirst == res = "opened" /\ i = 2 /\ conf.system = "auto" =>
                   \A j \in 1..2 : ~ (F[j].seems["do"] /\ F[j].opens["do"])
RefusedRightly == res = "refused" =>
    \/ OS = <<>>
    \/ \A j \in 1..2 : Asked(F[j]) => \A a \in 1..Len(OS) : ~ F[j].opens[OS[a]] \/ (~ Sure /\ ~ F[j].seems[OS[a]])
Agrees == res # "trying" =>
    LET d == FloppyDecision(F, conf.order, conf.system, ExtOf(conf.ext))
    IN d = IF res = "opened" THEN Opened(k, OS[i]) ELSE Refused
Ends == <>(res # "trying")

\* For the case generator.
Printed == PrintT("OPEN " \o ToJson(conf))
Once == i = 0
=============================================================================
