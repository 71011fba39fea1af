------------------------------ MODULE Opening -------------------------------
(* How an image's sector order and system are decided: from the options,     *)
(* else the extension, else the content.                                     *)
EXTENDS Bytes

FloppySize == 143360
Floppy13 == 116480
MaxHdv == 65536 * 512

\* The orders to try for a floppy, in turn; none: refused.
OrdersToTry(order, ext) ==
    IF order \in {"do", "po"} THEN <<order>>
    ELSE IF order # "auto" THEN <<>>
    ELSE CASE ext = ExtPo -> <<"po">>
           [] ext = ExtDo -> <<"do">>
           [] ext \in {ExtDsk, <<>>} -> <<"do", "po">>
           [] OTHER -> <<>>

\* facs: the registered systems, [name, seems, opens]; seems[o] and opens[o]
\* say whether the content, read as order o, is recognised and can be opened.
Chosen(facs, system) == {k \in 1..Len(facs) : system = "auto" \/ facs[k].name = system}

Refused == [ok |-> FALSE, fac |-> 0, order |-> ""]
Opened(k, o) == [ok |-> TRUE, fac |-> k, order |-> o]

\* Of all pairs of an order to try and a chosen system that fit, the first:
\* by order, then by registration.
FirstFit(facs, K, os) ==
    LET Fits == {<<i, k>> \in (1..Len(os)) \X K : facs[k].seems[os[i]] /\ facs[k].opens[os[i]]}
        Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
    IN IF Fits = {} THEN Refused
       ELSE LET f == CHOOSE a \in Fits : \A b \in Fits : Before(a, b) IN Opened(f[2], os[f[1]])

FloppyDecision(facs, order, system, ext) ==
    LET os == OrdersToTry(order, ext)
        K == Chosen(facs, system)
    IN IF K = {} \/ os = <<>> THEN Refused
       ELSE IF Len(os) = 1 /\ system # "auto"
       THEN \* nothing to guess
            LET k == CHOOSE k \in K : \A j \in K : k <= j
            IN IF facs[k].opens[os[1]] THEN Opened(k, os[1]) ELSE Refused
       ELSE FirstFit(facs, K, os)

\* Hard-disk images are ProDOS volumes, whatever they hold.
HdvDecision(facs, order, system, n) ==
    LET K == {k \in 1..Len(facs) : facs[k].name = "prodos"}
    IN IF n % 512 # 0 \/ n > MaxHdv \/ order \notin {"auto", "po"} \/ system \notin {"auto", "prodos"} \/ K = {} THEN Refused
       ELSE LET k == CHOOSE k \in K : TRUE IN IF facs[k].opens["po"] THEN Opened(k, "po") ELSE Refused

Decision(facs, order, system, name, n) ==
    LET ext == Extension(name)
    IN IF n = FloppySize THEN FloppyDecision(facs, order, system, ext)
       ELSE IF n = Floppy13 THEN Refused
       ELSE IF ext = ExtHdv THEN HdvDecision(facs, order, system, n)
       ELSE Refused

\* A floppy-sized .hdv file of which the order is not given is left open, and
\* so is an empty one.
DecisionOpen(order, name, n) == Extension(name) = ExtHdv /\ (n = 0 \/ (n = FloppySize /\ order = "auto"))
=============================================================================
