------------------------------ MODULE ConfigFile ----------------------------
EXTENDS ConfigCase, TLC, Json
Cases == JsonDeserialize("cases.json")
\* (a case is first posed, then answered, so that TLC's workers share the answering)
VARIABLES i, answered
Init == i \in 1..Len(Cases) /\ answered = FALSE
Next == ~answered /\ answered' = TRUE /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, answered>>
Emit == answered => PrintT("EX " \o ToJson([x |-> Cases[i], y |-> Expect(Cases[i])]))
Hold == answered => Theorems(Cases[i])
=============================================================================
