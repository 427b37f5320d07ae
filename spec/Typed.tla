------------------------------- MODULE Typed ------------------------------
(* Typed access to an instruction (C23): of the borrowing accessors, the        *)
(* consuming accessors and the conversions exactly the one of its kind          *)
(* succeeds, nothing is lost, and of the shell and exec accessors exactly one.   *)
EXTENDS Sequences
CommandKinds == {"RUN", "CMD", "ENTRYPOINT"}
TypedOf(m) ==
  LET shell == m.k \in CommandKinds
      form == IF shell THEN m.form ELSE "" IN
  [k |-> m.k, form |-> form, by_ref |-> <<m.k>>, owned |-> <<m.k>>, conv |-> <<m.k>>, errs |-> TRUE, back |-> TRUE, spans |-> TRUE,
   sp |-> m.sp, psp |-> m.sp,
   forms |-> IF shell THEN <<LET s == form = "shell" IN [ish |-> s, iex |-> ~s, osh |-> s, oex |-> ~s, esh |-> s, eex |-> ~s, eq |-> TRUE]>> ELSE <<>>]
===========================================================================
