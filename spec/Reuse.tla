------------------------------- MODULE Reuse -------------------------------
(* One object (converter, optimizer, exporter) used for several programs.    *)
(* What a call returns is a function of the program alone; nothing that was  *)
(* given or returned before changes.  Values are opaque digests.             *)
EXTENDS Num

Fresh(out, fresh) == out = fresh
Stable(kept, now) == kept = now
\* the state of the world after a call: the digests of everything returned so far
Keep(s, out) == Append(s, out)
=============================================================================
