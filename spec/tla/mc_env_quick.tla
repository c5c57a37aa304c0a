\* compiled from mc_env.qnt 10dc260dca0de0f8b48fe8dcbe8e54c049a1f35f2695cd1ba5519c19f2b80ee4
----------------------------- MODULE mc_env_quick -----------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

(*
  @type: (() => Set(Int));
*)
mc_env_quick_mc_env_KINDS == 30 .. 32

VARIABLE
  (*
    @type: { attack: Int, env: Int, kind: Int, mag: Int, release: Int };
  *)
  mc_env_quick_mc_env_e

(*
  @type: ((Int) => { attack: Int, env: Int, kind: Int, mag: Int, release: Int });
*)
mc_env_quick_mc_env_mc_env_E_newEnv(mc_env_quick_mc_env_mc_env_E_kind_624) ==
  [kind |-> mc_env_quick_mc_env_mc_env_E_kind_624,
    attack |-> 0,
    release |-> 0,
    env |-> 0,
    mag |-> 0]

VARIABLE
  (*
    @type: { attack: Int, env: Int, kind: Int, mag: Int, release: Int };
  *)
  mc_env_quick_mc_env_fresh

VARIABLE
  (*
    @type: Int;
  *)
  mc_env_quick_mc_env_prev

VARIABLE
  (*
    @type: Int;
  *)
  mc_env_quick_mc_env_fed

VARIABLE
  (*
    @type: { a: Int, op: Str };
  *)
  mc_env_quick_mc_env_last

(*
  @type: (() => Set(Int));
*)
mc_env_quick_mc_env_VALS == { (-16), (-8), 0, 8, 16 }

(*
  @type: (({ attack: Int, env: Int, kind: Int, mag: Int, release: Int }) => { attack: Int, env: Int, kind: Int, mag: Int, release: Int });
*)
mc_env_quick_mc_env_slim(mc_env_quick_mc_env_s_61) ==
  [ mc_env_quick_mc_env_s_61 EXCEPT !["mag"] = 0 ]

(*
  @type: ((Int) => Int);
*)
mc_env_quick_mc_env_mc_env_E_eabs(mc_env_quick_mc_env_mc_env_E_a_595) ==
  IF mc_env_quick_mc_env_mc_env_E_a_595 < 0
  THEN -mc_env_quick_mc_env_mc_env_E_a_595
  ELSE mc_env_quick_mc_env_mc_env_E_a_595

(*
  @type: (() => Int);
*)
mc_env_quick_mc_env_mc_env_E_UNIT == 8

(*
  @type: (({ attack: Int, env: Int, kind: Int, mag: Int, release: Int }, Int) => Int);
*)
mc_env_quick_mc_env_mc_env_E_coef(mc_env_quick_mc_env_mc_env_E_s_689, mc_env_quick_mc_env_mc_env_E_u_689) ==
  IF mc_env_quick_mc_env_mc_env_E_s_689["kind"] = 30
  THEN mc_env_quick_mc_env_mc_env_E_s_689["attack"]
  ELSE IF mc_env_quick_mc_env_mc_env_E_s_689["env"]
    < mc_env_quick_mc_env_mc_env_E_u_689
  THEN mc_env_quick_mc_env_mc_env_E_s_689["attack"]
  ELSE mc_env_quick_mc_env_mc_env_E_s_689["release"]

(*
  @type: ((Int, Int) => Int);
*)
mc_env_quick_mc_env_mc_env_E_emax(mc_env_quick_mc_env_mc_env_E_a_608, mc_env_quick_mc_env_mc_env_E_b_608) ==
  IF mc_env_quick_mc_env_mc_env_E_a_608 < mc_env_quick_mc_env_mc_env_E_b_608
  THEN mc_env_quick_mc_env_mc_env_E_b_608
  ELSE mc_env_quick_mc_env_mc_env_E_a_608

(*
  @type: (() => Set(Int));
*)
mc_env_quick_mc_env_GAINS == { (-1), 0, 2, 4, 7, 8, 9 }

(*
  @type: (({ attack: Int, env: Int, kind: Int, mag: Int, release: Int }) => { attack: Int, env: Int, kind: Int, mag: Int, release: Int });
*)
mc_env_quick_mc_env_mc_env_E_clear(mc_env_quick_mc_env_mc_env_E_s_636) ==
  [
    [ mc_env_quick_mc_env_mc_env_E_s_636 EXCEPT !["env"] = 0 ] EXCEPT
      !["mag"] = 0
  ]

(*
  @type: (() => Int);
*)
mc_env_quick_mc_env_LIMIT == 16

(*
  @type: (() => Bool);
*)
mc_env_quick_mc_env_init ==
  \E mc_env_quick_mc_env_k \in mc_env_quick_mc_env_KINDS:
    mc_env_quick_mc_env_e
        = mc_env_quick_mc_env_mc_env_E_newEnv(mc_env_quick_mc_env_k)
      /\ mc_env_quick_mc_env_fresh
        = mc_env_quick_mc_env_mc_env_E_newEnv(mc_env_quick_mc_env_k)
      /\ mc_env_quick_mc_env_prev = 0
      /\ mc_env_quick_mc_env_fed = 0
      /\ mc_env_quick_mc_env_last = [op |-> "new", a |-> mc_env_quick_mc_env_k]

(*
  @type: ((Int, Int) => Int);
*)
mc_env_quick_mc_env_mc_env_E_emul(mc_env_quick_mc_env_mc_env_E_a_583, mc_env_quick_mc_env_mc_env_E_b_583) ==
  LET (*
    @type: (() => Int);
  *)
  mc_env_quick_mc_env_mc_env_E_p ==
    mc_env_quick_mc_env_mc_env_E_a_583 * mc_env_quick_mc_env_mc_env_E_b_583
  IN
  IF mc_env_quick_mc_env_mc_env_E_p < 0
  THEN -((-mc_env_quick_mc_env_mc_env_E_p)
    \div mc_env_quick_mc_env_mc_env_E_UNIT)
  ELSE mc_env_quick_mc_env_mc_env_E_p \div mc_env_quick_mc_env_mc_env_E_UNIT

(*
  @type: (() => Bool);
*)
mc_env_quick_mc_env_doAttack ==
  \E mc_env_quick_mc_env_g \in mc_env_quick_mc_env_GAINS:
    mc_env_quick_mc_env_e["kind"] /= 30
      /\ mc_env_quick_mc_env_g >= 0
      /\ mc_env_quick_mc_env_g < 8
      /\ mc_env_quick_mc_env_e'
        := [ mc_env_quick_mc_env_e EXCEPT !["attack"] = mc_env_quick_mc_env_g ]
      /\ mc_env_quick_mc_env_fresh'
        := [
          mc_env_quick_mc_env_fresh EXCEPT
            !["attack"] = mc_env_quick_mc_env_g
        ]
      /\ mc_env_quick_mc_env_prev' := mc_env_quick_mc_env_e["env"]
      /\ mc_env_quick_mc_env_fed' := mc_env_quick_mc_env_e["env"]
      /\ mc_env_quick_mc_env_last'
        := [op |-> "attack", a |-> mc_env_quick_mc_env_g]

(*
  @type: (() => Bool);
*)
mc_env_quick_mc_env_doRelease ==
  \E mc_env_quick_mc_env_g \in mc_env_quick_mc_env_GAINS:
    mc_env_quick_mc_env_e["kind"] /= 30
      /\ mc_env_quick_mc_env_g >= 0
      /\ mc_env_quick_mc_env_g < 8
      /\ mc_env_quick_mc_env_e'
        := [ mc_env_quick_mc_env_e EXCEPT !["release"] = mc_env_quick_mc_env_g ]
      /\ mc_env_quick_mc_env_fresh'
        := [
          mc_env_quick_mc_env_fresh EXCEPT
            !["release"] = mc_env_quick_mc_env_g
        ]
      /\ mc_env_quick_mc_env_prev' := mc_env_quick_mc_env_e["env"]
      /\ mc_env_quick_mc_env_fed' := mc_env_quick_mc_env_e["env"]
      /\ mc_env_quick_mc_env_last'
        := [op |-> "release", a |-> mc_env_quick_mc_env_g]

(*
  @type: (({ attack: Int, env: Int, kind: Int, mag: Int, release: Int }, Int) => { attack: Int, env: Int, kind: Int, mag: Int, release: Int });
*)
mc_env_quick_mc_env_mc_env_E_setAlpha(mc_env_quick_mc_env_mc_env_E_s_838, mc_env_quick_mc_env_mc_env_E_a_838) ==
  IF mc_env_quick_mc_env_mc_env_E_a_838 >= 0
    /\ mc_env_quick_mc_env_mc_env_E_a_838 < mc_env_quick_mc_env_mc_env_E_UNIT
  THEN [
    [
      mc_env_quick_mc_env_mc_env_E_s_838 EXCEPT
        !["attack"] = mc_env_quick_mc_env_mc_env_E_a_838
    ] EXCEPT
      !["release"] = mc_env_quick_mc_env_mc_env_E_a_838
  ]
  ELSE mc_env_quick_mc_env_mc_env_E_s_838

(*
  @type: (() => Bool);
*)
mc_env_quick_mc_env_doClear ==
  mc_env_quick_mc_env_e'
      := (mc_env_quick_mc_env_mc_env_E_clear(mc_env_quick_mc_env_e))
    /\ mc_env_quick_mc_env_fresh'
      := [
        [
          (mc_env_quick_mc_env_mc_env_E_newEnv(mc_env_quick_mc_env_e["kind"])) EXCEPT
            !["attack"] = mc_env_quick_mc_env_e["attack"]
        ] EXCEPT
          !["release"] = mc_env_quick_mc_env_e["release"]
      ]
    /\ mc_env_quick_mc_env_prev' := 0
    /\ mc_env_quick_mc_env_fed' := 0
    /\ mc_env_quick_mc_env_last' := [op |-> "clear", a |-> 0]

(*
  @type: (() => Bool);
*)
mc_env_quick_mc_env_between ==
  (mc_env_quick_mc_env_prev <= mc_env_quick_mc_env_e["env"]
      /\ mc_env_quick_mc_env_e["env"] <= mc_env_quick_mc_env_fed)
    \/ (mc_env_quick_mc_env_fed <= mc_env_quick_mc_env_e["env"]
      /\ mc_env_quick_mc_env_e["env"] <= mc_env_quick_mc_env_prev)

(*
  @type: (() => Bool);
*)
mc_env_quick_mc_env_gainsOk ==
  mc_env_quick_mc_env_e["attack"] >= 0
    /\ mc_env_quick_mc_env_e["attack"] < 8
    /\ mc_env_quick_mc_env_e["release"] >= 0
    /\ mc_env_quick_mc_env_e["release"] < 8
    /\ (mc_env_quick_mc_env_e["kind"] = 30
      => mc_env_quick_mc_env_e["attack"] = mc_env_quick_mc_env_e["release"])

(*
  @type: (() => Bool);
*)
mc_env_quick_mc_env_clearOk == mc_env_quick_mc_env_e = mc_env_quick_mc_env_fresh

(*
  @type: (() => Bool);
*)
mc_env_quick_mc_env_newOk ==
  (mc_env_quick_mc_env_last["op"] = "process"
      /\ mc_env_quick_mc_env_e["attack"] = 0)
    /\ mc_env_quick_mc_env_e["release"] = 0
    => mc_env_quick_mc_env_e["env"] = mc_env_quick_mc_env_fed

(*
  @type: (() => Bool);
*)
q_init == mc_env_quick_mc_env_init

(*
  @type: (({ attack: Int, env: Int, kind: Int, mag: Int, release: Int }, Int) => Int);
*)
mc_env_quick_mc_env_mc_env_E_rectify(mc_env_quick_mc_env_mc_env_E_s_661, mc_env_quick_mc_env_mc_env_E_x_661) ==
  IF mc_env_quick_mc_env_mc_env_E_s_661["kind"] = 31
  THEN mc_env_quick_mc_env_mc_env_E_eabs(mc_env_quick_mc_env_mc_env_E_x_661)
  ELSE IF mc_env_quick_mc_env_mc_env_E_s_661["kind"] = 32
  THEN mc_env_quick_mc_env_mc_env_E_emul(mc_env_quick_mc_env_mc_env_E_x_661, mc_env_quick_mc_env_mc_env_E_x_661)
  ELSE mc_env_quick_mc_env_mc_env_E_x_661

(*
  @type: (() => Bool);
*)
mc_env_quick_mc_env_doAlpha ==
  \E mc_env_quick_mc_env_g \in mc_env_quick_mc_env_GAINS:
    mc_env_quick_mc_env_e["kind"] = 30
      /\ mc_env_quick_mc_env_e'
        := (mc_env_quick_mc_env_mc_env_E_setAlpha(mc_env_quick_mc_env_e, mc_env_quick_mc_env_g))
      /\ mc_env_quick_mc_env_fresh'
        := (mc_env_quick_mc_env_mc_env_E_setAlpha(mc_env_quick_mc_env_fresh, mc_env_quick_mc_env_g))
      /\ mc_env_quick_mc_env_prev' := mc_env_quick_mc_env_e["env"]
      /\ mc_env_quick_mc_env_fed' := mc_env_quick_mc_env_e["env"]
      /\ mc_env_quick_mc_env_last'
        := [op |-> "alpha", a |-> mc_env_quick_mc_env_g]

(*
  @type: (() => Bool);
*)
mc_env_quick_mc_env_ballisticsOk ==
  mc_env_quick_mc_env_last["op"] = "process"
    /\ mc_env_quick_mc_env_e["kind"] /= 30
    => (mc_env_quick_mc_env_fed > mc_env_quick_mc_env_prev
        /\ mc_env_quick_mc_env_e["attack"] = 0
        => mc_env_quick_mc_env_e["env"] = mc_env_quick_mc_env_fed)
      /\ (mc_env_quick_mc_env_fed <= mc_env_quick_mc_env_prev
        /\ mc_env_quick_mc_env_e["release"] = 0
        => mc_env_quick_mc_env_e["env"] = mc_env_quick_mc_env_fed)
      /\ (mc_env_quick_mc_env_fed > mc_env_quick_mc_env_prev
        => mc_env_quick_mc_env_e["env"] - mc_env_quick_mc_env_fed
          = mc_env_quick_mc_env_mc_env_E_emul(mc_env_quick_mc_env_e["attack"], (mc_env_quick_mc_env_prev
            - mc_env_quick_mc_env_fed)))
      /\ (mc_env_quick_mc_env_fed <= mc_env_quick_mc_env_prev
        => mc_env_quick_mc_env_e["env"] - mc_env_quick_mc_env_fed
          = mc_env_quick_mc_env_mc_env_E_emul(mc_env_quick_mc_env_e["release"], (mc_env_quick_mc_env_prev
            - mc_env_quick_mc_env_fed)))

(*
  @type: (({ attack: Int, env: Int, kind: Int, mag: Int, release: Int }, Int) => { attack: Int, env: Int, kind: Int, mag: Int, release: Int });
*)
mc_env_quick_mc_env_mc_env_E_process(mc_env_quick_mc_env_mc_env_E_s_728, mc_env_quick_mc_env_mc_env_E_x_728) ==
  LET (*
    @type: (() => Int);
  *)
  mc_env_quick_mc_env_mc_env_E_u ==
    mc_env_quick_mc_env_mc_env_E_rectify(mc_env_quick_mc_env_mc_env_E_s_728, mc_env_quick_mc_env_mc_env_E_x_728)
  IN
  [
    [
      mc_env_quick_mc_env_mc_env_E_s_728 EXCEPT
        !["env"] =
          mc_env_quick_mc_env_mc_env_E_u
            + mc_env_quick_mc_env_mc_env_E_emul((mc_env_quick_mc_env_mc_env_E_coef(mc_env_quick_mc_env_mc_env_E_s_728,
            (mc_env_quick_mc_env_mc_env_E_u))), (mc_env_quick_mc_env_mc_env_E_s_728[
              "env"
            ]
              - mc_env_quick_mc_env_mc_env_E_u))
    ] EXCEPT
      !["mag"] =
        mc_env_quick_mc_env_mc_env_E_emax(mc_env_quick_mc_env_mc_env_E_s_728[
          "mag"
        ], (mc_env_quick_mc_env_mc_env_E_emax((mc_env_quick_mc_env_mc_env_E_eabs((mc_env_quick_mc_env_mc_env_E_u))),
        (mc_env_quick_mc_env_mc_env_E_eabs(mc_env_quick_mc_env_mc_env_E_s_728[
          "env"
        ])))))
  ]

(*
  @type: (() => Bool);
*)
mc_env_quick_mc_env_levelOk ==
  (mc_env_quick_mc_env_e["kind"] /= 30 => mc_env_quick_mc_env_e["env"] >= 0)
    /\ mc_env_quick_mc_env_e["env"]
      <= mc_env_quick_mc_env_mc_env_E_rectify([
        mc_env_quick_mc_env_e EXCEPT
          !["kind"] =
            IF mc_env_quick_mc_env_e["kind"] = 30
            THEN 31
            ELSE mc_env_quick_mc_env_e["kind"]
      ], (mc_env_quick_mc_env_LIMIT))
    /\ mc_env_quick_mc_env_e["env"] >= -mc_env_quick_mc_env_LIMIT

(*
  @type: (() => Bool);
*)
mc_env_quick_mc_env_doProcess ==
  \E mc_env_quick_mc_env_x \in mc_env_quick_mc_env_VALS:
    mc_env_quick_mc_env_e'
        := (mc_env_quick_mc_env_slim((mc_env_quick_mc_env_mc_env_E_process(mc_env_quick_mc_env_e,
        mc_env_quick_mc_env_x))))
      /\ mc_env_quick_mc_env_fresh'
        := (mc_env_quick_mc_env_slim((mc_env_quick_mc_env_mc_env_E_process(mc_env_quick_mc_env_fresh,
        mc_env_quick_mc_env_x))))
      /\ mc_env_quick_mc_env_prev' := mc_env_quick_mc_env_e["env"]
      /\ mc_env_quick_mc_env_fed'
        := (mc_env_quick_mc_env_mc_env_E_rectify(mc_env_quick_mc_env_e, mc_env_quick_mc_env_x))
      /\ mc_env_quick_mc_env_last'
        := [op |-> "process", a |-> mc_env_quick_mc_env_x]

(*
  @type: (() => Bool);
*)
mc_env_quick_mc_env_allOk ==
  mc_env_quick_mc_env_between
    /\ mc_env_quick_mc_env_levelOk
    /\ mc_env_quick_mc_env_gainsOk
    /\ mc_env_quick_mc_env_ballisticsOk
    /\ mc_env_quick_mc_env_clearOk
    /\ mc_env_quick_mc_env_newOk

(*
  @type: (() => Bool);
*)
mc_env_quick_mc_env_step ==
  mc_env_quick_mc_env_doProcess
    \/ mc_env_quick_mc_env_doAttack
    \/ mc_env_quick_mc_env_doRelease
    \/ mc_env_quick_mc_env_doAlpha
    \/ mc_env_quick_mc_env_doClear

(*
  @type: (() => Bool);
*)
q_inv == mc_env_quick_mc_env_allOk

(*
  @type: (() => Bool);
*)
q_step == mc_env_quick_mc_env_step

================================================================================
