------------------------------- MODULE MC_C19 -------------------------------
(***************************************************************************)
(* A splitter that cuts off pieces anywhere it may: for every text over    *)
(* characters of 1 to 4 bytes and every limit it never gets stuck, and     *)
(* what it produces is a legal split (IsSplit). A truncation exists for    *)
(* every text and limit, and is unique for a limit.                        *)
(***************************************************************************)
EXTENDS DvbText

CONSTANTS MaxChars, Limits

Chars == << 65, 233, 8364, 128512 >>
VARIABLES text, n, rest, pieces
vars == << text, n, rest, pieces >>

Texts == UNION { [1 .. k -> 1 .. 4] : k \in 1 .. MaxChars }
Bytes(f) == Concat([i \in 1 .. Len(f) |-> Utf8Of(Chars[f[i]])])
Init == /\ \E f \in Texts : text = << Utf8 >> \o Bytes(f)
        /\ n \in Limits
        /\ rest = Data(text)
        /\ pieces = <<>>
Cut == { k \in 1 .. Min2(n - 1, Len(rest)) : Boundary(rest, k) }
Next == /\ rest /= <<>>
        /\ \E k \in Cut :
             /\ pieces' = Append(pieces, << Utf8 >> \o Take(rest, k))
             /\ rest' = Drop(rest, k)
        /\ UNCHANGED << text, n >>
Spec == Init /\ [][Next]_vars

NotStuck == rest /= <<>> => Cut /= {}
Legal == rest = <<>> => IsSplit(text, n, pieces)
\* joining two pieces or dropping a byte is noticed
Strict == rest = <<>> /\ Len(pieces) > 0 =>
            /\ ~ IsSplit(text, n, Tail(pieces))
            /\ ~ IsSplit(text, n, Append(pieces, << Utf8, 65 >>))
\* exactly one truncation
Candidates == { << Utf8 >> \o Take(Data(text), k) \o Dots : k \in 0 .. Len(Data(text)) } \cup {text}
OneTruncation == rest = Data(text) => Cardinality({ r \in Candidates : IsTruncation(text, n, r) }) = 1
=============================================================================
