-------------------------------- MODULE MC_Keys --------------------------------
(* The order of frames on all frames over three attributes and a few values:     *)
(* a strict total order on distinct frames, compatible with completion by a type. *)
(* One state per triple of frames.                                                *)
EXTENDS Keys
CONSTANT Vals
VARIABLES a, b, c
C == [rank |-> [s \in {"name", "type", "file", "None", "x", "y", "z"} |->
                  CASE s = "None" -> 0 [] s = "file" -> 1 [] s = "name" -> 2 [] s = "type" -> 3
                    [] s = "x" -> 4 [] s = "y" -> 5 [] OTHER -> 6]]
Ks == {"name", "type", "file"}
\* attribute -> value or "" (absent)
Asg == {f \in [Ks -> Vals \cup {""}] : \E k \in Ks : f[k] # ""}
Pairs(f) == {<<StrV(C, k), StrV(C, f[k])>> : k \in {k \in Ks : f[k] # ""}}
F(f) == FramePairs(C, SetToSeq(Pairs(f)), <<>>)
Frames == {F(f) : f \in Asg}
Init == a \in Frames /\ b \in Frames /\ c \in Frames
Next == UNCHANGED <<a, b, c>>
Spec == Init /\ [][Next]_<<a, b, c>>
Total == (a # b) = (FrameLt(a, b) \/ FrameLt(b, a))
Asymmetric == ~(FrameLt(a, b) /\ FrameLt(b, a))
Transitive == FrameLt(a, b) /\ FrameLt(b, c) => FrameLt(a, c)
\* every frame has a type; keyword arguments override the dictionary
Typed == FrameAttr(a, "type") # None
Override == LET m == FramePairs(C, a, b) IN
            /\ \A k \in Ks : FrameAttr(b, k) # None => FrameAttr(m, k) = FrameAttr(b, k)
            /\ \A k \in Ks : FrameAttr(b, k) = None => FrameAttr(m, k) = FrameAttr(a, k)
\* sorting three frames is stable and monotone
Sorted == LET f == <<a, b, c>>  s == StableSort(3, LAMBDA i, j: FrameLt(f[i], f[j])) IN
          /\ Range(s) = 1..3
          /\ \A i \in 1..2 : ~FrameLt(f[s[i + 1]], f[s[i]]) /\ (f[s[i]] = f[s[i + 1]] => s[i] < s[i + 1])
===============================================================================
