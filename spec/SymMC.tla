------------------------------- MODULE SymMC -------------------------------
(* Identifiers made of all short texts over characters of every class, and *)
(* platform strings made of all short byte strings over decisive bytes.    *)
EXTENDS Str, TLC, Json
CONSTANTS MaxLen, MaxBytes
VARIABLES s, kind
\* a, é, 0, ½, fullwidth 9, underscore, hyphen, blank, combining accent, emoji
Cls == [c \in {97, 233, 48, 189, 65305, 95, 45, 32, 769, 128512} |->
        IF c \in {97, 233} THEN 1 ELSE IF c \in {48, 189, 65305} THEN 2 ELSE 0]
Bytes == {97, 128, 159, 160, 191, 194, 224, 225, 237, 240, 244, 255}
Init == \/ kind = 1 /\ s \in UNION {[1..n -> DOMAIN Cls] : n \in 0..MaxLen}
        \/ kind = 3 /\ s \in UNION {[1..n -> Bytes] : n \in 0..MaxBytes}
Next == FALSE /\ UNCHANGED <<s, kind>>
Of(t) == [k \in 1..Len(t) |-> Cls[t[k]]]
Ops == IF kind = 1 THEN <<[k |-> 1, a |-> s, cls |-> Of(s)], [k |-> 2, a |-> s]>>
       ELSE [j \in 1..4 |-> [k |-> 2 + j, a |-> s]] \o <<[k |-> 7, a |-> s, b |-> Reverse(s)]>>
Report == PrintT("BEHAVIOUR " \o ToJson(
    [in |-> [cap |-> 0, piece |-> 0, ops |-> Ops],
     out |-> [j \in 1..Len(Ops) |-> Call([cap |-> 0], <<>>, Ops[j]).obs]]))
\* The result is an identifier, and an identifier stays as it is.
Identifier(t) == t # <<>> /\ Cls[t[1]] # 2 /\ \A k \in 1..Len(t) : t[k] = Under \/ Cls[t[k]] # 0
Valid == kind = 1 => LET r == Symbol(s, Of(s))
                     IN /\ Identifier(r)
                        /\ Symbol(r, [k \in 1..Len(r) |-> IF r[k] = Under THEN 0 ELSE Cls[r[k]]]) = r
                        /\ Len(r) \in Len(s)..(Len(s) + 1)
                        /\ Identifier(s) => r = s
\* Lossy text has replacement characters exactly if the bytes are no UTF-8.
LossyFits == kind = 3 => (IsUtf8(s) <=> \A k \in 1..Len(Lossy(s)) : Lossy(s)[k] # 65533)
RoundTrip == (kind = 3 /\ IsUtf8(s)) => FlattenSeq([k \in 1..Len(Lossy(s)) |-> Encode(Lossy(s)[k])]) = s
=============================================================================
