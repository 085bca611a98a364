----------------------------- MODULE MethodBlocks -----------------------------
(* Method graphs of any size, described by pieces: variables 1..N, a method   *)
(* x[k] + hub -> x[k+1] between neighbours, and one variable "hub" that all   *)
(* of them use.  Values of a whole piece have a closed form.  With a small N  *)
(* the pieces are compared, after every call, with the state of MethodOps     *)
(* that went through the same calls; with a large N the same module says what *)
(* a method graph of a thousand variables must hold, and its behaviours are   *)
(* replayed on the real class.                                                *)
EXTENDS MethodOps, TLC, Json
CONSTANTS N, Cut, Heads, Hubs, MaxCalls, EmitOn, Small
VARIABLES pc,   \* pieces [lo, hi, head, b, st, on]: x[lo] = head, x[k] = b + (k-lo)*st; on: methods lo..hi-1 are present
          gl,   \* present methods k between the last of one piece and the first of the next
          hub,  \* value of the hub, or Gone
          fan,  \* a crowd of variables, each assigned the value of the hub: [val, on], val = Gone: not there
          act, n, hist,
          ms    \* small N: the MethodOps state
vars == <<pc, gl, hub, fan, act, n, hist, ms>>

Nil  == 1000001       \* no value
Gone == 1000002
P(lo, hi, hd, b, st, on) == IF lo > hi THEN {} ELSE {[lo |-> lo, hi |-> hi, head |-> hd, b |-> b, st |-> st, on |-> on]}
Fits(p, k) == p.lo <= k /\ k <= p.hi
Has(k) == \E p \in pc : Fits(p, k)
Of(S, k) == CHOOSE p \in S : Fits(p, k)
ValIn(p, k) == IF k = p.lo THEN p.head ELSE IF p.b = Nil THEN Nil ELSE p.b + (k - p.lo) * p.st
\* the part of p in lo..hi
Part(p, lo, hi) ==
    LET l == IF lo > p.lo THEN lo ELSE p.lo  h == IF hi < p.hi THEN hi ELSE p.hi
    IN  IF l > h THEN {}
        ELSE IF l = p.lo THEN P(l, h, p.head, p.b, p.st, p.on)
        ELSE P(l, h, ValIn(p, l), ValIn(p, l), p.st, p.on)
Without(S, k) == UNION {Part(p, 1, k - 1) \cup Part(p, k + 1, N) : p \in S}
SplitAfter(S, k) == UNION {Part(p, 1, k) \cup Part(p, k + 1, N) : p \in S}
\* method k (from k to k+1) present, variable k determined
Met(S, G, k) == k \in G \/ \E p \in S : p.on /\ p.lo <= k /\ k < p.hi
Fixed(k) == k > 1 /\ Met(pc, gl, k - 1)
\* whether there is a way from variable j to variable k (along increasing numbers)
RECURSIVE RunEnd(_, _, _)
RunEnd(S, G, p) == LET h == IF p.on THEN p.hi ELSE p.lo
                   IN  IF h = p.hi /\ p.hi \in G THEN RunEnd(S, G, Of(S, p.hi + 1)) ELSE h
Way(j, k) == j <= k /\ LET p == Of(pc, j) IN (p.on \/ j = p.hi) /\ (IF k <= p.hi THEN p.on \/ j = k ELSE p.hi \in gl /\ k <= RunEnd(pc, gl, Of(pc, p.hi + 1)))

\* propagation: every run of methods starting at p takes the values head, head + hub, ...
Pre(S, G) == {p \in S : ~(p.lo - 1 \in G)}
Settle(S, G, h) ==
    UNION {LET e == RunEnd(S, G, p)
               b == IF p.head = Nil \/ h = Nil \/ h = Gone THEN Nil ELSE p.head
           IN  IF p.on \/ p.hi \in G THEN P(p.lo, e, p.head, b, IF h = Gone \/ h = Nil THEN 0 ELSE h, TRUE) ELSE {p}
           : p \in Pre(S, G)}

---------------------------------------------------------------------------
(* The same method graph in the terms of MethodOps (small N). *)
HUB == N + 1
LEAF == N + 2        \* one leaf stands for the crowd
MM == [k \in 1..N |-> IF k < N THEN [kind |-> "add", ins |-> <<k, HUB>>, outs |-> <<k + 1>>, c |-> 0]
                      ELSE [kind |-> "assign", ins |-> <<HUB>>, outs |-> <<LEAF>>, c |-> 0]]
Back(j, k) == [kind |-> "add", ins |-> <<j, HUB>>, outs |-> <<k>>, c |-> 0]
V(x) == IF x = Nil THEN None ELSE Num(x)
Run(r, prop) == IF ~Small THEN ms ELSE IF prop THEN Settled(MM, r, EvalAll(MM, r)) ELSE r

Init == /\ pc = {} /\ gl = {} /\ hub = 1 /\ fan = [val |-> Gone, on |-> FALSE] /\ n = 0 /\ act = [op |-> <<"init">>, prop |-> FALSE, err |-> {""}] /\ hist = <<>>
        /\ ms = IF Small THEN AddVariable(Empty, HUB, Num(1)).s ELSE Empty
ToF(S, G, h, f, op, prop) ==
    /\ fan' = (IF prop /\ f.on THEN [f EXCEPT !.val = h] ELSE f)
    /\ pc' = (IF prop THEN Settle(S, G, h) ELSE S) /\ gl' = (IF prop THEN {} ELSE G) /\ hub' = h
    /\ act' = [op |-> op, prop |-> prop, err |-> {""}] /\ n' = n + 1
To(S, G, h, op, prop) == ToF(S, G, h, fan, op, prop)
Refuse(op, e) == fan' = fan /\  pc' = pc /\ gl' = gl /\ hub' = hub /\ act' = [op |-> op, prop |-> TRUE, err |-> e] /\ n' = n + 1
RECURSIVE AddAll(_, _, _)
AddAll(s, lo, hi) == IF lo >= hi THEN s ELSE AddAll(AddMethod(MM, s, lo).s, lo + 1, hi)

\* a whole chain (the driver makes the single calls in some order)
Build(lo, hi, x, prop) ==
    /\ lo <= hi /\ hub # Gone /\ \A k \in {lo, hi} : ~Has(k)
    /\ \A p \in pc : p.hi < lo \/ p.lo > hi
    \* deferred: values are still missing, all methods present
    /\ To(pc \cup P(lo, hi, x, Nil, 0, TRUE), gl, hub, <<"build", lo, hi, x>>, prop)
    /\ ms' = Run(AddAll(AddVariable(ms, lo, V(x)).s, lo, hi), prop)
Set(k, x, prop) ==
    LET op == <<"set", k, x>> IN
    IF ~Has(k) THEN Refuse(op, {"other"}) /\ UNCHANGED ms
    ELSE /\ ~Fixed(k)
         /\ LET p == Of(pc, k) IN
            To(IF k = p.lo THEN (pc \ {p}) \cup {[p EXCEPT !.head = x]}
               ELSE (pc \ {p}) \cup Part(p, 1, k - 1) \cup P(k, k, x, Nil, 0, FALSE) \cup Part(p, k + 1, N), gl, hub, op, prop)
         /\ ms' = Run(SetVar(MM, ms, k, V(x)).s, prop)
SetHub(x, prop) == /\ hub # Gone /\ To(pc, gl, x, <<"set_hub", x>>, prop)
                   /\ ms' = Run(SetVar(MM, ms, HUB, V(x)).s, prop)
AddHub(x) == hub = Gone /\ To(pc, gl, x, <<"add_hub", x>>, FALSE) /\ ms' = Run(AddVariable(ms, HUB, V(x)).s, FALSE)
RemHub == /\ hub # Gone
          /\ ToF({[p EXCEPT !.on = FALSE] : p \in pc}, {}, Gone, [fan EXCEPT !.on = FALSE], <<"rem_hub">>, FALSE)
          /\ ms' = Run(RemVariable(MM, ms, HUB).s, FALSE)
Join(k, prop) ==
    LET op == <<"add_method", k>> IN
    /\ hub # Gone /\ Has(k) /\ Has(k + 1)
    /\ IF Met(pc, gl, k) THEN To(pc, gl, hub, op, FALSE) /\ UNCHANGED ms
       ELSE /\ To(SplitAfter(SplitAfter(SplitAfter(pc, k - 1), k), k + 1), gl \cup {j \in {k - 1, k + 1} : j > 0 /\ Met(pc, gl, j)} \cup {k}, hub, op, prop)
            /\ ms' = Run(AddMethod(MM, ms, k).s, prop)
Cut1(k) ==
    LET op == <<"rem_method", k>> IN
    IF ~Met(pc, gl, k) THEN Refuse(op, {"other"}) /\ UNCHANGED ms
    ELSE /\ To(SplitAfter(pc, k), gl \ {k}, hub, op, FALSE)
         /\ ms' = Run(RemMethod(MM, ms, k).s, FALSE)
RemV(k) ==
    LET op == <<"rem_variable", k>> IN
    IF ~Has(k) THEN Refuse(op, {"other"}) /\ UNCHANGED ms
    ELSE /\ To(Without(pc, k), gl \ {k - 1, k}, hub, op, FALSE)
         /\ ms' = Run(RemVariable(MM, ms, k).s, FALSE)
\* a method from j to k is refused
Refused(j, k) ==
    /\ hub # Gone /\ Has(j) /\ Has(k) /\ k # j + 1
    /\ (Fixed(k) \/ Way(k, j))
    /\ Refuse(<<"bad_method", j, k>>, (IF Fixed(k) THEN {"determine"} ELSE {}) \cup (IF Way(k, j) THEN {"cycle"} ELSE {}))
    /\ UNCHANGED ms
Propagate == To(pc, gl, hub, <<"propagate">>, TRUE) /\ ms' = Run(ms, TRUE)
\* method j raises while the head of its piece is set; then it works again and one propagation is done
Fault(k, x, j) ==
    /\ Has(k) /\ ~Fixed(k)
    /\ LET p == Of(pc, k) IN
       /\ gl = {} /\ pc = Settle(pc, gl, hub) /\ p.on /\ k = p.lo /\ k <= j /\ j < p.hi /\ x # Nil /\ p.head # Nil /\ x # p.head /\ hub \notin {Nil, Gone}
       /\ To((pc \ {p}) \cup {[p EXCEPT !.head = x]}, gl, hub, <<"fault", k, x, j>>, TRUE)
    /\ ms' = Run(SetVar(MM, ms, k, V(x)).s, TRUE)
FanOn(prop) == /\ hub # Gone /\ ~fan.on
               /\ ToF(pc, gl, hub, [val |-> IF fan.val = Gone THEN Nil ELSE fan.val, on |-> TRUE], <<"fan_on">>, prop)
               /\ ms' = Run(AddMethod(MM, ms, N).s, prop)
FanOff == /\ fan.on /\ ToF(pc, gl, hub, [fan EXCEPT !.on = FALSE], <<"fan_off">>, FALSE)
          /\ ms' = Run(RemMethod(MM, ms, N).s, FALSE)
ClearAll == ToF({}, {}, Gone, [val |-> Gone, on |-> FALSE], <<"clear">>, FALSE) /\ ms' = (IF Small THEN Clear(MM, ms).s ELSE ms)

\* a large graph is walked at random: one candidate of each sort of call
Some(S) == IF Small \/ S = {} THEN S ELSE {RandomElement(S)}
Next == /\ n < MaxCalls
        /\ \/ \E t \in Some({t \in Cut \X Cut : t[1] <= t[2] /\ \A p \in pc : p.hi < t[1] \/ p.lo > t[2]}), x \in Some(Heads), p \in Some(BOOLEAN) : Build(t[1], t[2], x, p)
           \/ \E k \in Some(Cut), x \in Some(Heads), p \in Some(BOOLEAN) : Set(k, x, p)
           \/ \E q \in Some(pc), x \in Some(Heads), p \in Some(BOOLEAN) : Set(q.lo, x, p)
           \/ \E x \in Some(Hubs), p \in Some(BOOLEAN) : SetHub(x, p)
           \/ \E x \in Some(Hubs) : AddHub(x)
           \/ (Small \/ n % 3 = 2 \/ fan.on) /\ RemHub
           \/ \E p \in Some(BOOLEAN) : FanOn(p)
           \/ FanOff
           \/ \E k \in Some({k \in Cut : k < N /\ Has(k) /\ Has(k + 1)}), p \in Some(BOOLEAN) : Join(k, p)
           \/ \E q \in Some({q \in pc : q.hi < N /\ Has(q.hi + 1)}), p \in Some(BOOLEAN) : Join(q.hi, p)
           \/ \E k \in Some(Cut) : k < N /\ Cut1(k)
           \/ \E k \in Some(Cut) : RemV(k)
           \/ \E j, k \in Some(Cut) : Refused(j, k)
           \/ \E q \in Some(pc) : Refused(q.hi, q.lo)
           \/ Propagate
           \/ \E t \in Some({t \in pc \X Cut : t[1].on /\ t[1].head # Nil /\ t[1].lo <= t[2] /\ t[2] < t[1].hi}), x \in Some(Heads) : Fault(t[1].lo, x, t[2])
           \/ ~Small /\ pc # {} /\ LET q == CHOOSE q \in pc : \A r \in pc : r.hi - r.lo <= q.hi - q.lo
                              IN  \E x \in Some(Heads) : Set(q.lo, x, TRUE)
           \/ (n > 2 /\ (Small \/ n % 3 = 0) /\ ClearAll)
        /\ hist' = IF EmitOn THEN Append(hist, [a |-> act', x |-> [pc |-> pc', gl |-> gl', hub |-> hub', fan |-> fan']]) ELSE hist
Spec == Init /\ [][Next]_vars
View == <<pc, gl, hub, fan, n, ms>>

---------------------------------------------------------------------------
Shape == /\ \A p, q \in pc : p # q => (p.hi < q.lo \/ q.hi < p.lo)
         /\ \A k \in gl : Has(k) /\ Has(k + 1) /\ Of(pc, k).hi = k /\ Of(pc, k + 1).lo = k + 1
Same == Small =>
    /\ ms.vars = {k \in 1..N : Has(k)} \cup (IF hub = Gone THEN {} ELSE {HUB}) \cup (IF fan.val = Gone THEN {} ELSE {LEAF})
    /\ \A k \in 1..N : Has(k) => ms.val[k] = V(ValIn(Of(pc, k), k))
    /\ hub # Gone => ms.val[HUB] = V(hub)
    /\ fan.val # Gone => ms.val[LEAF] = V(fan.val)
    /\ ms.met = {k \in 1..(N - 1) : Met(pc, gl, k)} \cup (IF fan.on THEN {N} ELSE {})
\* the refusals are those of MethodOps
RefusedRight == [][(Small /\ act'.op[1] = "bad_method") =>
    LET M2 == [k \in 1..(N + 1) |-> IF k = N + 1 THEN Back(act'.op[2], act'.op[3]) ELSE MM[k]]
    IN  AddMethod(M2, ms, N + 1).err = act'.err]_vars
Settled1 == [][(Small /\ act'.prop /\ act'.err = {""}) => Consistent(MM, ms')]_vars
EmitHist == (EmitOn /\ n = MaxCalls) => PrintT("HI " \o ToJson(hist))
=============================================================================
