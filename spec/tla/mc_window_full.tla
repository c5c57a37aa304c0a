\* compiled from mc_window.qnt e6dd0c79f90071c4f0baedbc852eb58d519428e31b443daa5e681cb0a8443be4
---------------------------- MODULE mc_window_full ----------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

(*
  @type: (() => Set(Int));
*)
mc_window_full_mc_window_SIZES == 0 .. 64

VARIABLE
  (*
    @type: { index: Int, kind: Int, size: Int };
  *)
  mc_window_full_mc_window_it

(*
  @type: ((Int, Int) => { index: Int, kind: Int, size: Int });
*)
mc_window_full_mc_window_newIter(mc_window_full_mc_window_kind_274, mc_window_full_mc_window_n_274) ==
  [kind |-> mc_window_full_mc_window_kind_274,
    size |-> mc_window_full_mc_window_n_274,
    index |-> 0]

VARIABLE
  (*
    @type: Int;
  *)
  mc_window_full_mc_window_given

VARIABLE
  (*
    @type: Bool;
  *)
  mc_window_full_mc_window_gave

VARIABLE
  (*
    @type: { a: Int, op: Str };
  *)
  mc_window_full_mc_window_last

(*
  @type: (({ index: Int, kind: Int, size: Int }, Int) => { index: Int, kind: Int, size: Int });
*)
mc_window_full_mc_window_advance(mc_window_full_mc_window_s_314, mc_window_full_mc_window_k_314) ==
  [
    mc_window_full_mc_window_s_314 EXCEPT
      !["index"] =
        IF mc_window_full_mc_window_s_314["index"]
          + mc_window_full_mc_window_k_314
          < mc_window_full_mc_window_s_314["size"]
        THEN mc_window_full_mc_window_s_314["index"]
          + mc_window_full_mc_window_k_314
        ELSE mc_window_full_mc_window_s_314["size"]
  ]

(*
  @type: (() => Set(Int));
*)
mc_window_full_mc_window_JUMPS == 0 .. 70

(*
  @type: (({ index: Int, kind: Int, size: Int }) => Int);
*)
mc_window_full_mc_window_remaining(mc_window_full_mc_window_s_286) ==
  mc_window_full_mc_window_s_286["size"]
    - mc_window_full_mc_window_s_286["index"]

(*
  @type: (() => Bool);
*)
mc_window_full_mc_window_init ==
  \E mc_window_full_mc_window_n \in mc_window_full_mc_window_SIZES:
    mc_window_full_mc_window_it
        = mc_window_full_mc_window_newIter(40, mc_window_full_mc_window_n)
      /\ mc_window_full_mc_window_given = 0
      /\ mc_window_full_mc_window_gave = TRUE
      /\ mc_window_full_mc_window_last
        = [op |-> "new", a |-> mc_window_full_mc_window_n]

(*
  @type: (() => Bool);
*)
mc_window_full_mc_window_doNext ==
  mc_window_full_mc_window_it'
      := (mc_window_full_mc_window_advance(mc_window_full_mc_window_it, 1))
    /\ mc_window_full_mc_window_gave'
      := (mc_window_full_mc_window_it["index"]
        < mc_window_full_mc_window_it["size"])
    /\ mc_window_full_mc_window_given'
      := (IF mc_window_full_mc_window_it["index"]
        < mc_window_full_mc_window_it["size"]
      THEN mc_window_full_mc_window_given + 1
      ELSE mc_window_full_mc_window_given)
    /\ mc_window_full_mc_window_last' := [op |-> "next", a |-> 0]

(*
  @type: (() => Bool);
*)
mc_window_full_mc_window_doNth ==
  \E mc_window_full_mc_window_k \in mc_window_full_mc_window_JUMPS:
    mc_window_full_mc_window_it'
        := (mc_window_full_mc_window_advance(mc_window_full_mc_window_it, (mc_window_full_mc_window_k
          + 1)))
      /\ mc_window_full_mc_window_gave'
        := (mc_window_full_mc_window_it["index"] + mc_window_full_mc_window_k
          < mc_window_full_mc_window_it["size"])
      /\ mc_window_full_mc_window_given'
        := (IF (mc_window_full_mc_window_given + mc_window_full_mc_window_k) + 1
          < mc_window_full_mc_window_it["size"]
        THEN (mc_window_full_mc_window_given + mc_window_full_mc_window_k) + 1
        ELSE mc_window_full_mc_window_it["size"])
      /\ mc_window_full_mc_window_last'
        := [op |-> "nth", a |-> mc_window_full_mc_window_k]

(*
  @type: (() => Bool);
*)
mc_window_full_mc_window_doTake ==
  \E mc_window_full_mc_window_k \in mc_window_full_mc_window_JUMPS:
    mc_window_full_mc_window_it'
        := (mc_window_full_mc_window_advance(mc_window_full_mc_window_it, mc_window_full_mc_window_k))
      /\ mc_window_full_mc_window_gave' := TRUE
      /\ mc_window_full_mc_window_given'
        := (IF mc_window_full_mc_window_given + mc_window_full_mc_window_k
          < mc_window_full_mc_window_it["size"]
        THEN mc_window_full_mc_window_given + mc_window_full_mc_window_k
        ELSE mc_window_full_mc_window_it["size"])
      /\ mc_window_full_mc_window_last'
        := [op |-> "take", a |-> mc_window_full_mc_window_k]

(*
  @type: (() => Bool);
*)
mc_window_full_mc_window_doDrain ==
  mc_window_full_mc_window_it'
      := (mc_window_full_mc_window_advance(mc_window_full_mc_window_it, mc_window_full_mc_window_it[
        "size"
      ]))
    /\ mc_window_full_mc_window_gave' := TRUE
    /\ mc_window_full_mc_window_given' := mc_window_full_mc_window_it["size"]
    /\ mc_window_full_mc_window_last' := [op |-> "drain", a |-> 0]

(*
  @type: (() => Bool);
*)
mc_window_full_mc_window_countOk ==
  mc_window_full_mc_window_given
    + mc_window_full_mc_window_remaining(mc_window_full_mc_window_it)
    = mc_window_full_mc_window_it["size"]

(*
  @type: (() => Bool);
*)
mc_window_full_mc_window_rangeOk ==
  mc_window_full_mc_window_remaining(mc_window_full_mc_window_it) >= 0
    /\ mc_window_full_mc_window_remaining(mc_window_full_mc_window_it)
      <= mc_window_full_mc_window_it["size"]

(*
  @type: (() => Bool);
*)
mc_window_full_mc_window_fusedOk ==
  ~mc_window_full_mc_window_gave
    => mc_window_full_mc_window_remaining(mc_window_full_mc_window_it) = 0

(*
  @type: (() => Bool);
*)
q_init == mc_window_full_mc_window_init

(*
  @type: (() => Bool);
*)
mc_window_full_mc_window_step ==
  mc_window_full_mc_window_doNext
    \/ mc_window_full_mc_window_doNth
    \/ mc_window_full_mc_window_doTake
    \/ mc_window_full_mc_window_doDrain

(*
  @type: (() => Bool);
*)
mc_window_full_mc_window_allOk ==
  mc_window_full_mc_window_countOk
    /\ mc_window_full_mc_window_rangeOk
    /\ mc_window_full_mc_window_fusedOk

(*
  @type: (() => Bool);
*)
q_step == mc_window_full_mc_window_step

(*
  @type: (() => Bool);
*)
q_inv == mc_window_full_mc_window_allOk

================================================================================
