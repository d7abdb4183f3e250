----------------------------- MODULE BodyReads -----------------------------
(* What an application may observe when it reads a body whose content is `body`.                     *)
(* whole: the declared length has been reached (nothing beyond it is ever touched);                  *)
(* e: what the stream does after its last byte ("eof", "stall", "reset").                            *)
EXTENDS Text

\* what a read after the last byte reports
AtEnd(whole, e) == IF whole \/ e = "eof" THEN "end" ELSE "error"

\* rs: the reads in order, each <<room, "ok" | "err", bytes>>
RECURSIVE ReadsFit(_, _, _, _, _, _)
ReadsFit(rs, k, at, body, whole, e) ==
  IF k > Len(rs) THEN TRUE
  ELSE LET r == rs[k]
           left == Len(body) - at
       IN IF r[2] = "ok"
          THEN /\ Len(r[3]) <= r[1]
               /\ Len(r[3]) <= left /\ r[3] = SubSeq(body, at + 1, at + Len(r[3]))
               /\ (r[3] = "" => r[1] = 0 \/ (left = 0 /\ AtEnd(whole, e) = "end"))
               /\ ReadsFit(rs, k + 1, at + Len(r[3]), body, whole, e)
          ELSE /\ r[2] = "err" /\ left = 0 /\ AtEnd(whole, e) = "error"
               /\ ReadsFit(rs, k + 1, at, body, whole, e)

Total(rs) == Cat([i \in 1..Len(rs) |-> IF rs[i][2] = "ok" THEN rs[i][3] ELSE ""])

\* run: [mode, end, reads, all, stalls]
BodyFits(run, body, whole) ==
  /\ CASE run.mode = "none" -> TRUE
      [] run.mode = "reads" -> ReadsFit(run.reads, 1, 0, body, whole, run.end) /\ Total(run.reads) = body
      [] run.mode = "bytes" -> IF AtEnd(whole, run.end) = "end" THEN run.all = [ok |-> TRUE, data |-> body]
                               ELSE ~run.all.ok
      [] run.mode = "string" -> IF AtEnd(whole, run.end) = "end" /\ IsUtf8(body)
                                THEN run.all = [ok |-> TRUE, data |-> body] ELSE ~run.all.ok
  \* nothing is waited for once the body is complete
  /\ (run.end = "stall" /\ (whole \/ run.mode = "none")) => run.stalls = 0
=============================================================================
