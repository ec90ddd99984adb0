------------------------------ MODULE MC_Shards -----------------------------
(* The shard boundaries for every suite length and shard count in range.     *)
EXTENDS Evaluation, TLC
CONSTANTS MaxN, MaxK
VARIABLES n, k
Init == n \in 0..MaxN /\ k \in 1..MaxK
Next == UNCHANGED <<n, k>>
Spec == Init /\ [][Next]_<<n, k>>
Size(i) == ShardHi(n, i, k) - ShardLo(n, i, k)
Covers == ShardLo(n, 0, k) = 0 /\ ShardHi(n, k - 1, k) = n
Consecutive == \A i \in 0..(k - 2) : ShardHi(n, i, k) = ShardLo(n, i + 1, k)
Balanced == \A i \in 0..(k - 1) : Size(i) \in {n \div k, n \div k + 1}
=============================================================================
