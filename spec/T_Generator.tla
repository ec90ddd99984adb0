---------------------------- MODULE T_Generator -----------------------------
(* Judges recorded uses of the generative model (see Generator.tla).         *)
(* shape: s and what its methods return                                      *)
(* decode: s layers last z -> exc out                                        *)
(* encode: layers mean logvar xs -> exc m lv                                 *)
(* vae: reconstructions against those of the parts                           *)
(* field: slices of a generated field; key -> identity of the field          *)
EXTENDS TraceKit, Generator
StartDef == [seen |-> <<>>]   \* << <<key, content>> ... >>

Single(a, b, abs) == FClose(a, b, "3e-5", abs)
AllClose(a, b, abs) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Single(a[i], b[i], abs)
GridOk(xs, lo, hi, n, tol) == Len(xs) = n /\ \A i \in 1..n : FClose(xs[i], Line(lo, hi, n, i), "1e-6", tol)

ShapeClauses(e) ==
  LET s == e.s IN
  << Clause("grid-shape", e.grid = GridShape(s)),
     Clause("direction-grid-shape", e.dir = << s.n, s.n, s.np, s.nt >>),
     Clause("number-of-points", e.points = Points(s) /\ e.output = 2 * Points(s)),
     Clause("flow-fields", e.flows = FlowFields(s) /\ e.units = s.w * s.w * FlowFields(s)),
     Clause("horizontal-grid", GridOk(e.xs, FNeg(s.km), s.km, s.n, "1e-3")),
     Clause("pressure-grid", GridOk(e.ps, s.pmin, s.pmax, s.np, "1e-2")),
     Clause("time-grid", Len(e.ts) = s.nt /\ \A i \in 1..s.nt : FEq(e.ts[i], FFloor(Line(0, s.hours, s.nt, i)))) >>

\* a slice: u[i][j], v[i][j]
SliceOk(sl, tol) ==
  LET n == Len(sl.u) IN
  \A i, j \in 2..(n - 1) :
    FLe(FAbs(Divergence(LAMBDA a, b : sl.u[a][b], LAMBDA a, b : sl.v[a][b], i, j)), tol)

DecodeClauses(e) ==
  IF e.exc # "ok" THEN << Clause("decoder-does-not-fail", FALSE) >> ELSE
  LET s == e.s  want == Decode(s, e.layers, e.last, e.z) IN
  << Clause("field-has-the-declared-shape", e.dims = GridShape(s)),
     Clause("field-is-the-curl-of-its-stream-function",
        e.dims = GridShape(s) =>
        \A i, j \in 1..s.n, p \in 1..s.np, t \in 1..s.nt, c \in 1..2 :
          Single(e.out[i][j][p][t][c], want[i][j][p][t][c], e.tol)),
     Clause("decoded-field-is-incompressible",
        e.dims = GridShape(s) =>
        \A p \in 1..s.np, t \in 1..s.nt :
          SliceOk([u |-> [i \in 1..s.n |-> [j \in 1..s.n |-> e.out[i][j][p][t][1]]],
                   v |-> [i \in 1..s.n |-> [j \in 1..s.n |-> e.out[i][j][p][t][2]]]], FMul(8, e.tol))) >>

EncodeClauses(e) ==
  IF e.exc # "ok" THEN << Clause("encoder-does-not-fail", FALSE) >> ELSE
  LET w == Encode(e.layers, e.mean, e.logvar, e.xs) IN
  << Clause("latent-mean", AllClose(e.m, w.mean, "1e-5")),
     Clause("latent-log-variance", AllClose(e.lv, w.logvar, "1e-5")) >>

VaeClauses(e) ==
  IF e.exc # "ok" THEN << Clause("autoencoder-does-not-fail", FALSE) >> ELSE
  << Clause("autoencoder-uses-its-field-shape", e.dims = GridShape(e.s)),
     Clause("encodes-with-its-encoder", AllClose(e.mean, e.encmean, "1e-5") /\ AllClose(e.logvar, e.enclogvar, "1e-5")),
     Clause("latents-are-drawn-from-the-encoded-law",
        AllClose(e.z, IF e.draw THEN Latent(e.mean, e.logvar, e.eps) ELSE e.mean, "1e-4")),
     Clause("reconstruction-is-the-decoded-latents", AllClose(e.rec, e.decoded, e.tol)),
     Clause("generation-is-decoding", AllClose(e.gen, e.decodedz, e.tol)) >>

FieldClauses(st, e) ==
  IF e.exc # "ok" THEN << Clause("field-is-generated", FALSE) >> ELSE
  LET known == SelectSeq(st.seen, LAMBDA x : x[1] = e.key)
      others == SelectSeq(st.seen, LAMBDA x : x[1] # e.key) IN
  << Clause("field-has-the-declared-shape", e.dims = GridShape(e.s)),
     Clause("field-is-finite", e.finite),
     Clause("generated-field-is-incompressible", \A k \in 1..Len(e.slices) : SliceOk(e.slices[k], e.tol)),
     Clause("same-key-same-field", \A k \in 1..Len(known) : known[k][2] = e.sum),
     Clause("another-key-another-field", \A k \in 1..Len(others) : others[k][2] # e.sum),
     Clause("field-is-the-decoded-standard-normal", AllClose(e.some, e.want, "1e-3")) >>

JudgeDef(st, e) ==
  CASE e.ev = "begin" -> <<>>
    [] e.ev = "shape" -> ShapeClauses(e)
    [] e.ev = "decode" -> DecodeClauses(e)
    [] e.ev = "encode" -> EncodeClauses(e)
    [] e.ev = "vae" -> VaeClauses(e)
    [] e.ev = "field" -> FieldClauses(st, e)
    [] OTHER -> << Clause("known-event", FALSE) >>
AfterDef(st, e) ==
  CASE e.ev = "begin" -> [seen |-> <<>>]
    [] e.ev = "field" /\ e.exc = "ok" -> [st EXCEPT !.seen = Append(@, << e.key, e.sum >>)]
    [] OTHER -> st
=============================================================================
