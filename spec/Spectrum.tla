------------------------------- MODULE Spectrum -------------------------------
(***************************************************************************)
(* The power spectrum of a kernel sampled from time zero, and the          *)
(* minimum-phase version of a filter.  Cosines and sines of multiples of   *)
(* 2 pi / N come as rationals, correct to many digits.                     *)
(***************************************************************************)
EXTENDS BigRat, Sequences, FiniteSets, TLC, Json

CONSTANTS In, Out
Trace == JsonDeserialize(In)
VARIABLES c, res
vars == <<c, res>>

\* ------ The power spectrum of kernel k, with z zeros appended, at spacing dt.
Pad(k, z) == k \o [i \in 1..z |-> "0"]
\* One period of the symmetric extension; its ends occur once.
Period(k) == LET l == Len(k) IN [i \in 1..(2 * l - 2) |-> IF i <= l THEN k[i] ELSE k[2 * l - i]]
Fourier(p, cs, j) == RSumTo(LAMBDA i : RMul(p[i], cs[((j * (i - 1)) % Len(p)) + 1]), 1, Len(p))
\* (Directly: also at zero and half of the sampling rate.)
FourierK(k, cs, j) ==
  LET l == Len(k) nn == 2 * l - 2
  IN RAdd(RAdd(k[1], RMul(k[l], cs[((j * (l - 1)) % nn) + 1])),
          RMul("2", RSumTo(LAMBDA i : RMul(k[i], cs[((j * (i - 1)) % nn) + 1]), 2, l - 1)))
PSD(r) ==
  LET k == TLCEval(Pad(r.k, r.zero))
      nn == 2 * Len(k) - 2
      half == nn \div 2
      s == TLCEval([j \in 1..(half + 1) |-> RAbs(FourierK(k, r.cos, j - 1))])
      df == RDiv("1", RMul(RInt(nn), r.dt))
      \* The trapezoidal rule from minus half of the sampling rate to the frequency below half.
      all == RAdd(RAdd(s[1], s[half + 1]), RMul("2", RSumTo(LAMBDA j : s[j], 2, half)))
      total == RMul(df, RSub(all, RDiv(RAdd(s[half + 1], s[half]), "2")))
  IN [freqs |-> TLCEval([j \in 1..half |-> RMul(RInt(j - 1), df)]),
      psd |-> TLCEval([j \in 1..half |-> RDiv(RMul(s[j], k[1]), total)]), total |-> total, df |-> df, nyquist |-> RDiv(RMul(s[half + 1], k[1]), total)]

\* ------ Minimum phase: the phase is minus the Hilbert transform of the log-magnitudes lm.
HilbertKernel(nn, sn) ==
  TLCEval([m \in 1..nn |-> RMul(RFrac(2, nn), RSumTo(LAMBDA f : sn[((f * (m - 1)) % nn) + 1], 1, (nn - 1) \div 2))])
Phase(r) ==
  LET nn == Len(r.lm) g == HilbertKernel(nn, r.sin)
  IN TLCEval([j \in 1..nn |-> RNeg(RSumTo(LAMBDA m : RMul(r.lm[m], g[((nn + j - m) % nn) + 1]), 1, nn))])

Result(r) == IF r.kind = "psd" THEN PSD(r) ELSE [phase |-> Phase(r)]
Init == \E i \in DOMAIN Trace : c = Trace[i] /\ res = TLCEval(Result(Trace[i]))
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Tiny == "1/1000000000000"
Near(a, b) == RLt(RAbs(RSub(a, b)), Tiny)
\* A spectrum is not negative, and its power is that of the kernel at zero.
Power == c.kind = "psd" =>
  /\ \A j \in DOMAIN res.psd : RSign(res.psd[j]) >= 0
  /\ LET h == Len(res.psd)
         all == RAdd(RAdd(res.psd[1], res.nyquist), RMul("2", RSumTo(LAMBDA j : res.psd[j], 2, h)))
     IN Near(RMul(res.df, RSub(all, RDiv(RAdd(res.nyquist, res.psd[h]), "2"))), c.k[1])
\* The symmetric extension has a real transform that is the one above.
Symmetric == c.kind = "psd" => LET k == Pad(c.k, c.zero) IN
  \A j \in 0..2 : Near(FourierK(k, c.cos, j), Fourier(Period(k), c.cos, j))
\* A phase is odd, so that the filter is real.
Odd == c.kind = "phase" => LET p == res.phase nn == Len(p) IN
  /\ Near(p[1], "0")
  /\ \A j \in 2..nn : Near(p[j], RNeg(p[nn + 2 - j]))
Emit == WriteLine(ToJson([id |-> c.id, res |-> res]), Out)
=============================================================================
