------------------------------ MODULE Learner -------------------------------
(* A learning agent: what it stores, when it trains, what it plays.          *)
(*   m: mode   in: in an episode   obs, act: last observation and the action *)
(*   returned for it   n: transitions stored   steps: training steps         *)
(*   p, t, o: (digests of) parameters, target parameters, optimiser state    *)
EXTENDS Integers, Sequences, FloatOps

\* A training step is due whenever a training agent chooses an action.
Trains(cfg, n, steps) == n > cfg.hist /\ steps % cfg.update = 0
Syncs(cfg, n, steps) == n > cfg.hist /\ steps % cfg.target = 0

Transition(st, r, terminal) == [o |-> st.obs, a |-> st.act, r |-> r, t |-> terminal]
Stored(st, op, r, terminal) ==
  CASE st.m = "eval" -> <<>>
    [] op = "begin" -> <<>>
    [] op = "step" -> <<Transition(st, r, FALSE)>>
    [] op = "end" -> <<Transition(st, r, terminal)>>

\* Forward pass of the networks: dense layers with relu between them.
\* w: rows by input, b: biases.
Relu(x) == FMax(x, 0)
Column(w, j) == [i \in 1..Len(w) |-> w[i][j]]
Dense(x, w, b) == [j \in 1..Len(b) |-> FAdd(FDot(x, Column(w, j)), b[j])]
RECURSIVE Forward(_, _, _)
Forward(x, layers, k) ==
  LET y == Dense(x, layers[k].w, layers[k].b) IN
  IF k = Len(layers) THEN y ELSE Forward([i \in 1..Len(y) |-> Relu(y[i])], layers, k + 1)
Mean(q) == FDiv(FSum(q), Len(q))
\* Action values from the output of a quantile network: the mean of the atoms.
Values(y, atoms) == [a \in 1..(Len(y) \div atoms) |-> Mean(SubSeq(y, (a - 1) * atoms + 1, a * atoms))]
RECURSIVE Top(_, _)
Top(q, k) == IF k = 1 THEN q[1] ELSE FMax(Top(q, k - 1), q[k])
Greedy(q, a) == a \in 0..(Len(q) - 1) /\ FGe(q[a + 1], FSub(Top(q, Len(q)), "1e-5"))
=============================================================================
