----------------------------- MODULE ScenConfig -----------------------------
(***************************************************************************)
(* Constructions of filters: all combinations of parameters given (of      *)
(* sizes in Sizes, <<0>> where it is not given) and declared dimensions.   *)
(* Exhaustively explored; what inference of dimensions promises is         *)
(* checked of each, and each is printed for the driver to try.             *)
(***************************************************************************)
EXTENDS Config, Json

CONSTANTS Sizes, Kind     \* "linear" or "sigma"
VARIABLES stage, conf
vars == <<stage, conf>>

Given == IF Kind = "linear" THEN Parameters
         ELSE {"transition_covariance", "observation_covariance", "initial_state_mean", "initial_state_covariance"}
Square == {"transition_matrices", "transition_covariance", "observation_covariance", "initial_state_covariance"}
Some(k) == k \in Sizes
\* parameters are chosen one by one, in this order
Order == <<"observation_matrices", "transition_matrices", "transition_offsets", "transition_covariance", "initial_state_mean",
           "initial_state_covariance", "observation_offsets", "observation_covariance">>
NotGiven == <<>>
SizesOf(p) == {NotGiven} \cup (IF p \notin Given THEN {}
              ELSE IF p = "observation_matrices" THEN {<<i, j>> : i, j \in Sizes}
              ELSE IF p \in Square THEN {<<i, i>> : i \in Sizes} ELSE {<<i>> : i \in Sizes})

Init == stage = 1 /\ conf = [size |-> [p \in Parameters |-> NotGiven], ns |-> 0, no |-> 0]
Choose == /\ stage <= Len(Order)
          /\ \E s \in SizesOf(Order[stage]) : conf' = [conf EXCEPT !.size[Order[stage]] = s]
          /\ stage' = stage + 1
Declare == /\ stage = Len(Order) + 1
           /\ \E ns, no \in Sizes \cup {0} : conf' = [conf EXCEPT !.ns = ns, !.no = no]
           /\ stage' = stage + 1
Emit == /\ stage = Len(Order) + 2
        /\ PrintT("@@" \o ToJson([size |-> [i \in 1 .. Len(Order) |-> conf.size[Order[i]]], ns |-> conf.ns, no |-> conf.no]))
        /\ stage' = stage + 1 /\ UNCHANGED conf
Next == Choose \/ Declare \/ Emit
Spec == Init /\ [][Next]_vars

Forms(size) == [p \in Parameters |-> [form |-> IF size[p] = NotGiven THEN "none" ELSE "const"]]
SV(c) == StateVotes(Forms(c.size), c.size, c.ns)
OV(c) == ObsVotes(Forms(c.size), c.size, c.no)
Accepted(c) == Consistent(SV(c)) /\ Consistent(OV(c))

\* every size that was given is the size the filter has
DimensionsFit == Accepted(conf) =>
    LET n == Dimension(SV(conf)) m == Dimension(OV(conf))
        fits(p) == conf.size[p] = NotGiven
                   \/ conf.size[p] = (IF p = "observation_matrices" THEN <<m, n>>
                                      ELSE IF p = "observation_covariance" THEN <<m, m>>
                                      ELSE IF p = "observation_offsets" THEN <<m>>
                                      ELSE IF p \in Square THEN <<n, n>> ELSE <<n>>)
    IN  (\A p \in Parameters : fits(p)) /\ conf.ns \in {0, n} /\ conf.no \in {0, m}
\* leaving something out never makes a construction contradictory
LeavingOut == Accepted(conf) => \A p \in Parameters : Accepted([conf EXCEPT !.size[p] = NotGiven])
\* declaring the inferred dimensions changes nothing
Redundant == Accepted(conf) => LET c == [conf EXCEPT !.ns = Dimension(SV(conf)), !.no = Dimension(OV(conf))]
                               IN  Accepted(c) /\ Dimension(SV(c)) = Dimension(SV(conf)) /\ Dimension(OV(c)) = Dimension(OV(conf))
=============================================================================
