----------------------------- MODULE Generator ------------------------------
(* The generative model of wind fields: the shape of its fields, the decoder *)
(* (dense layers that give coarse stream functions, linear enlargement, and  *)
(* the discrete curl), the encoder, and what makes a field incompressible.   *)
(* A shape is [n, w, np, nt, km, pmax, pmin, hours]; a field is              *)
(* field[i][j][p][t][c], rows i and columns j from 1.                        *)
EXTENDS Integers, Sequences, FloatOps

\* ---- shapes
GridShape(s) == << s.n, s.n, s.np, s.nt, 2 >>
Points(s) == s.n * s.n * s.np * s.nt
FlowFields(s) == s.np * s.nt
Line(lo, hi, n, i) == IF n = 1 THEN lo ELSE FAdd(lo, FDiv(FMul(FSub(hi, lo), i - 1), n - 1))   \* i in 1..n

\* ---- dense layers; w[input][output], b[output]
Rect(x) == FMax(x, 0)
ColumnOf(w, j) == [i \in 1..Len(w) |-> w[i][j]]
Affine(x, l) == [j \in 1..Len(l.b) |-> FAdd(FDot(x, ColumnOf(l.w, j)), l.b[j])]
RectAll(x) == [i \in 1..Len(x) |-> Rect(x[i])]
RECURSIVE Hidden(_, _)
Hidden(x, layers) == IF layers = <<>> THEN x ELSE Hidden(RectAll(Affine(x, Head(layers))), Tail(layers))

\* ---- linear enlargement of w to m samples, both spanning the same interval
\* (samples sit in the middle of their cells; beyond the outermost the value stays).
Sample(w, m, i) ==   \* i in 1..m -> [a, b, f]: cells a, b (from 1) and the share of b
  LET pos == FSub(FMul(FDiv(FSub(i, "0.5"), m), w), "0.5")   \* in cells, from 0
      k == FFloor(pos) IN
  IF FLe(pos, 0) THEN [a |-> 1, b |-> 1, f |-> 0]
  ELSE IF FGe(pos, w - 1) THEN [a |-> w, b |-> w, f |-> 0]
  ELSE [a |-> k + 1, b |-> k + 2, f |-> FSub(pos, k)]
Mix(u, v, f) == FAdd(FMul(FSub(1, f), u), FMul(f, v))
\* coarse(r, c): stream function; psi on the enlarged grid
Psi(coarse(_, _), w, m, i, j) ==
  LET r == Sample(w, m, i)  c == Sample(w, m, j) IN
  Mix(Mix(coarse(r.a, c.a), coarse(r.a, c.b), c.f), Mix(coarse(r.b, c.a), coarse(r.b, c.b), c.f), r.f)

\* ---- the curl of a stream function with one spare row and column around the field
CurlU(psi(_, _), i, j) == FDiv(FSub(psi(i + 2, j + 1), psi(i, j + 1)), 2)
CurlV(psi(_, _), i, j) == FDiv(FSub(psi(i + 1, j), psi(i + 1, j + 2)), 2)
\* Net flow out of the neighbourhood of an interior point.
Divergence(u(_, _), v(_, _), i, j) ==
  FAdd(FSub(u(i, j + 1), u(i, j - 1)), FSub(v(i + 1, j), v(i - 1, j)))

\* ---- the decoder; layers: the hidden ones, last: the last one
Decode(s, layers, last, z) ==
  LET out == Affine(Hidden(z, layers), last)
      ff == FlowFields(s)
      at(k, r, c) == out[((r - 1) * s.w + (c - 1)) * ff + k]
      grid(k) == [i \in 1..(s.n + 2) |-> [j \in 1..(s.n + 2) |-> Psi(LAMBDA r, c : at(k, r, c), s.w, s.n + 2, i, j)]]
      g == [k \in 1..ff |-> grid(k)] IN
  [i \in 1..s.n |-> [j \in 1..s.n |-> [p \in 1..s.np |-> [t \in 1..s.nt |->
     LET k == (p - 1) * s.nt + t  psi(a, b) == g[k][a][b] IN << CurlU(psi, i, j), CurlV(psi, i, j) >> ]]]]

\* ---- the encoder
Squash(x) == FDiv(x, FAdd(50, FAbs(x)))
Encode(layers, mean, logvar, xs) ==
  LET h == Hidden([i \in 1..Len(xs) |-> Squash(xs[i])], layers) IN
  [mean |-> Affine(h, mean), logvar |-> Affine(h, logvar)]
Latent(mean, logvar, eps) == [i \in 1..Len(mean) |-> FAdd(mean[i], FMul(eps[i], FExp(FMul("0.5", logvar[i]))))]
=============================================================================
