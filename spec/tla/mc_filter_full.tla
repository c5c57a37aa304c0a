\* compiled from mc_filter.qnt 15c74dd6d932189600fc76e41511f50f30f5fb938d77ff97c483672c3f900249
---------------------------- MODULE mc_filter_full ----------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

(*
  @type: (() => Set(Int));
*)
mc_filter_full_mc_filter_KINDS == 10 .. 15

VARIABLE
  (*
    @type: Int;
  *)
  mc_filter_full_mc_filter_kind

VARIABLE
  (*
    @type: { a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int };
  *)
  mc_filter_full_mc_filter_f

(*
  @type: (() => Int);
*)
mc_filter_full_mc_filter_mc_filter_F_UNIT == 1

VARIABLE
  (*
    @type: { a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int };
  *)
  mc_filter_full_mc_filter_twin

VARIABLE
  (*
    @type: { a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int };
  *)
  mc_filter_full_mc_filter_fresh

VARIABLE
  (*
    @type: { a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int };
  *)
  mc_filter_full_mc_filter_a

VARIABLE
  (*
    @type: { a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int };
  *)
  mc_filter_full_mc_filter_b

VARIABLE
  (*
    @type: Bool;
  *)
  mc_filter_full_mc_filter_same

VARIABLE
  (*
    @type: Int;
  *)
  mc_filter_full_mc_filter_n

VARIABLE
  (*
    @type: Int;
  *)
  mc_filter_full_mc_filter_changes

VARIABLE
  (*
    @type: Int;
  *)
  mc_filter_full_mc_filter_lastRet

VARIABLE
  (*
    @type: { a: Int, b: Int, c: { a1: Int, a2: Int, b0: Int, b1: Int, b2: Int }, op: Str };
  *)
  mc_filter_full_mc_filter_last

(*
  @type: (() => { a1: Int, a2: Int, b0: Int, b1: Int, b2: Int });
*)
mc_filter_full_mc_filter_NOC ==
  [b0 |-> 0, b1 |-> 0, b2 |-> 0, a1 |-> 0, a2 |-> 0]

(*
  @type: (() => Set(Int));
*)
mc_filter_full_mc_filter_VALS == { 0, 1, 3 }

(*
  @type: ((Int) => Int);
*)
mc_filter_full_mc_filter_mc_filter_F_fabs(mc_filter_full_mc_filter_mc_filter_F_a_823) ==
  IF mc_filter_full_mc_filter_mc_filter_F_a_823 < 0
  THEN -mc_filter_full_mc_filter_mc_filter_F_a_823
  ELSE mc_filter_full_mc_filter_mc_filter_F_a_823

(*
  @type: ((Int, Int) => Int);
*)
mc_filter_full_mc_filter_mc_filter_F_fmax(mc_filter_full_mc_filter_mc_filter_F_a_836,
mc_filter_full_mc_filter_mc_filter_F_b_836) ==
  IF mc_filter_full_mc_filter_mc_filter_F_a_836
    < mc_filter_full_mc_filter_mc_filter_F_b_836
  THEN mc_filter_full_mc_filter_mc_filter_F_b_836
  ELSE mc_filter_full_mc_filter_mc_filter_F_a_836

(*
  @type: (() => Int);
*)
mc_filter_full_mc_filter_DEPTH == 4

(*
  @type: (({ a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int }) => { a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int });
*)
mc_filter_full_mc_filter_slim(mc_filter_full_mc_filter_s_231) ==
  [ [ mc_filter_full_mc_filter_s_231 EXCEPT !["mag"] = 0 ] EXCEPT !["now"] = 0 ]

(*
  @type: (() => Set({ a1: Int, a2: Int, b0: Int, b1: Int, b2: Int }));
*)
mc_filter_full_mc_filter_COEFS ==
  { [b0 |-> 1, b1 |-> 2, b2 |-> 3, a1 |-> 1, a2 |-> 2],
    [b0 |-> 2, b1 |-> 1, b2 |-> 0, a1 |-> 0, a2 |-> 1] }

(*
  @type: (() => Int);
*)
mc_filter_full_mc_filter_CHANGES == 3

(*
  @type: (({ a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int }, Int, Int, Int, Int, Int) => { a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int });
*)
mc_filter_full_mc_filter_mc_filter_F_setCoefs(mc_filter_full_mc_filter_mc_filter_F_s_927,
mc_filter_full_mc_filter_mc_filter_F_b0_927, mc_filter_full_mc_filter_mc_filter_F_b1_927,
mc_filter_full_mc_filter_mc_filter_F_b2_927, mc_filter_full_mc_filter_mc_filter_F_a1_927,
mc_filter_full_mc_filter_mc_filter_F_a2_927) ==
  [
    [
      [
        [
          [
            mc_filter_full_mc_filter_mc_filter_F_s_927 EXCEPT
              !["b0"] = mc_filter_full_mc_filter_mc_filter_F_b0_927
          ] EXCEPT
            !["b1"] = mc_filter_full_mc_filter_mc_filter_F_b1_927
        ] EXCEPT
          !["b2"] = mc_filter_full_mc_filter_mc_filter_F_b2_927
      ] EXCEPT
        !["a1"] = mc_filter_full_mc_filter_mc_filter_F_a1_927
    ] EXCEPT
      !["a2"] = mc_filter_full_mc_filter_mc_filter_F_a2_927
  ]

(*
  @type: ((Int, Int) => Bool);
*)
mc_filter_full_mc_filter_has(mc_filter_full_mc_filter_k_123, mc_filter_full_mc_filter_i_123) ==
  IF mc_filter_full_mc_filter_i_123 = 0
  THEN TRUE
  ELSE IF mc_filter_full_mc_filter_i_123 = 1
  THEN (mc_filter_full_mc_filter_k_123 = 11
      \/ mc_filter_full_mc_filter_k_123 = 13)
    \/ mc_filter_full_mc_filter_k_123 >= 14
  ELSE IF mc_filter_full_mc_filter_i_123 = 2
  THEN mc_filter_full_mc_filter_k_123 = 13
    \/ mc_filter_full_mc_filter_k_123 >= 14
  ELSE IF mc_filter_full_mc_filter_i_123 = 3
  THEN (mc_filter_full_mc_filter_k_123 = 10
      \/ mc_filter_full_mc_filter_k_123 = 12)
    \/ mc_filter_full_mc_filter_k_123 >= 14
  ELSE mc_filter_full_mc_filter_k_123 = 12
    \/ mc_filter_full_mc_filter_k_123 >= 14

(*
  @type: (({ a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int }, Int, Int) => { a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int });
*)
mc_filter_full_mc_filter_putField(mc_filter_full_mc_filter_s_219, mc_filter_full_mc_filter_i_219,
mc_filter_full_mc_filter_v_219) ==
  IF mc_filter_full_mc_filter_i_219 = 0
  THEN [
    mc_filter_full_mc_filter_s_219 EXCEPT
      !["b0"] = mc_filter_full_mc_filter_v_219
  ]
  ELSE IF mc_filter_full_mc_filter_i_219 = 1
  THEN [
    mc_filter_full_mc_filter_s_219 EXCEPT
      !["b1"] = mc_filter_full_mc_filter_v_219
  ]
  ELSE IF mc_filter_full_mc_filter_i_219 = 2
  THEN [
    mc_filter_full_mc_filter_s_219 EXCEPT
      !["b2"] = mc_filter_full_mc_filter_v_219
  ]
  ELSE IF mc_filter_full_mc_filter_i_219 = 3
  THEN [
    mc_filter_full_mc_filter_s_219 EXCEPT
      !["a1"] = mc_filter_full_mc_filter_v_219
  ]
  ELSE [
    mc_filter_full_mc_filter_s_219 EXCEPT
      !["a2"] = mc_filter_full_mc_filter_v_219
  ]

(*
  @type: (({ a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int }) => { a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int });
*)
mc_filter_full_mc_filter_mc_filter_F_clear(mc_filter_full_mc_filter_mc_filter_F_s_960) ==
  [
    [
      [
        [
          [
            [
              [
                [
                  [
                    mc_filter_full_mc_filter_mc_filter_F_s_960 EXCEPT
                      !["x1"] = 0
                  ] EXCEPT
                    !["x2"] = 0
                ] EXCEPT
                  !["y1"] = 0
              ] EXCEPT
                !["y2"] = 0
            ] EXCEPT
              !["z1"] = 0
          ] EXCEPT
            !["z2"] = 0
        ] EXCEPT
          !["out"] = 0
      ] EXCEPT
        !["mag"] = 0
    ] EXCEPT
      !["now"] = 0
  ]

(*
  @type: ((Bool) => { a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int });
*)
mc_filter_full_mc_filter_mc_filter_F_newFilter(mc_filter_full_mc_filter_mc_filter_F_transposed_896) ==
  [b0 |-> mc_filter_full_mc_filter_mc_filter_F_UNIT,
    b1 |-> 0,
    b2 |-> 0,
    a1 |-> 0,
    a2 |-> 0,
    x1 |-> 0,
    x2 |-> 0,
    y1 |-> 0,
    y2 |-> 0,
    z1 |-> 0,
    z2 |-> 0,
    transposed |-> mc_filter_full_mc_filter_mc_filter_F_transposed_896,
    out |-> 0,
    mag |-> 0,
    now |-> 0]

(*
  @type: ((Int, Int) => Int);
*)
mc_filter_full_mc_filter_mc_filter_F_fmul(mc_filter_full_mc_filter_mc_filter_F_a_860,
mc_filter_full_mc_filter_mc_filter_F_b_860) ==
  LET (*
    @type: (() => Int);
  *)
  mc_filter_full_mc_filter_mc_filter_F_p ==
    mc_filter_full_mc_filter_mc_filter_F_a_860
      * mc_filter_full_mc_filter_mc_filter_F_b_860
  IN
  IF mc_filter_full_mc_filter_mc_filter_F_p < 0
  THEN -((-mc_filter_full_mc_filter_mc_filter_F_p)
    \div mc_filter_full_mc_filter_mc_filter_F_UNIT)
  ELSE mc_filter_full_mc_filter_mc_filter_F_p
    \div mc_filter_full_mc_filter_mc_filter_F_UNIT

(*
  @type: (({ a1: Int, a2: Int, b0: Int, b1: Int, b2: Int }, { a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int }, Str, Int, Int) => Bool);
*)
mc_filter_full_mc_filter_setAll(mc_filter_full_mc_filter_c_514, mc_filter_full_mc_filter_g_514,
mc_filter_full_mc_filter_op_514, mc_filter_full_mc_filter_i_514, mc_filter_full_mc_filter_v_514) ==
  mc_filter_full_mc_filter_changes < mc_filter_full_mc_filter_CHANGES
    /\ mc_filter_full_mc_filter_changes'
      := (mc_filter_full_mc_filter_changes + 1)
    /\ mc_filter_full_mc_filter_f' := mc_filter_full_mc_filter_g_514
    /\ mc_filter_full_mc_filter_twin'
      := (mc_filter_full_mc_filter_mc_filter_F_setCoefs(mc_filter_full_mc_filter_twin,
      mc_filter_full_mc_filter_g_514["b0"], mc_filter_full_mc_filter_g_514["b1"],
      mc_filter_full_mc_filter_g_514["b2"], mc_filter_full_mc_filter_g_514["a1"],
      mc_filter_full_mc_filter_g_514["a2"]))
    /\ mc_filter_full_mc_filter_fresh'
      := (mc_filter_full_mc_filter_mc_filter_F_setCoefs(mc_filter_full_mc_filter_fresh,
      mc_filter_full_mc_filter_g_514["b0"], mc_filter_full_mc_filter_g_514["b1"],
      mc_filter_full_mc_filter_g_514["b2"], mc_filter_full_mc_filter_g_514["a1"],
      mc_filter_full_mc_filter_g_514["a2"]))
    /\ mc_filter_full_mc_filter_a'
      := (mc_filter_full_mc_filter_mc_filter_F_setCoefs(mc_filter_full_mc_filter_a,
      mc_filter_full_mc_filter_g_514["b0"], mc_filter_full_mc_filter_g_514["b1"],
      mc_filter_full_mc_filter_g_514["b2"], mc_filter_full_mc_filter_g_514["a1"],
      mc_filter_full_mc_filter_g_514["a2"]))
    /\ mc_filter_full_mc_filter_b'
      := (mc_filter_full_mc_filter_mc_filter_F_setCoefs(mc_filter_full_mc_filter_b,
      mc_filter_full_mc_filter_g_514["b0"], mc_filter_full_mc_filter_g_514["b1"],
      mc_filter_full_mc_filter_g_514["b2"], mc_filter_full_mc_filter_g_514["a1"],
      mc_filter_full_mc_filter_g_514["a2"]))
    /\ mc_filter_full_mc_filter_same'
      := (mc_filter_full_mc_filter_same
        /\ (mc_filter_full_mc_filter_n = 0
          \/ mc_filter_full_mc_filter_g_514 = mc_filter_full_mc_filter_f))
    /\ mc_filter_full_mc_filter_n' := mc_filter_full_mc_filter_n
    /\ mc_filter_full_mc_filter_kind' := mc_filter_full_mc_filter_kind
    /\ mc_filter_full_mc_filter_lastRet' := mc_filter_full_mc_filter_lastRet
    /\ mc_filter_full_mc_filter_last'
      := [op |-> mc_filter_full_mc_filter_op_514,
        a |-> mc_filter_full_mc_filter_i_514,
        b |-> mc_filter_full_mc_filter_v_514,
        c |-> mc_filter_full_mc_filter_c_514]

(*
  @type: (({ a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int }, Int, { a1: Int, a2: Int, b0: Int, b1: Int, b2: Int }) => { a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int });
*)
mc_filter_full_mc_filter_putCoefs(mc_filter_full_mc_filter_s_174, mc_filter_full_mc_filter_k_174,
mc_filter_full_mc_filter_c_174) ==
  mc_filter_full_mc_filter_mc_filter_F_setCoefs(mc_filter_full_mc_filter_s_174, mc_filter_full_mc_filter_c_174[
    "b0"
  ], (IF mc_filter_full_mc_filter_has(mc_filter_full_mc_filter_k_174, 1)
  THEN mc_filter_full_mc_filter_c_174["b1"]
  ELSE 0), (IF mc_filter_full_mc_filter_has(mc_filter_full_mc_filter_k_174, 2)
  THEN mc_filter_full_mc_filter_c_174["b2"]
  ELSE 0), (IF mc_filter_full_mc_filter_has(mc_filter_full_mc_filter_k_174, 3)
  THEN mc_filter_full_mc_filter_c_174["a1"]
  ELSE 0), (IF mc_filter_full_mc_filter_has(mc_filter_full_mc_filter_k_174, 4)
  THEN mc_filter_full_mc_filter_c_174["a2"]
  ELSE 0))

(*
  @type: (() => Bool);
*)
mc_filter_full_mc_filter_twinOk ==
  mc_filter_full_mc_filter_same
    => mc_filter_full_mc_filter_f["out"] = mc_filter_full_mc_filter_twin["out"]

(*
  @type: (() => Bool);
*)
mc_filter_full_mc_filter_linearOk ==
  mc_filter_full_mc_filter_f["out"]
    = mc_filter_full_mc_filter_a["out"] + mc_filter_full_mc_filter_b["out"]

(*
  @type: (() => Bool);
*)
mc_filter_full_mc_filter_clearOk ==
  mc_filter_full_mc_filter_f = mc_filter_full_mc_filter_fresh

(*
  @type: (() => Bool);
*)
mc_filter_full_mc_filter_lastOk ==
  mc_filter_full_mc_filter_f["out"] = mc_filter_full_mc_filter_lastRet

(*
  @type: (() => Bool);
*)
mc_filter_full_mc_filter_newOk ==
  (((((mc_filter_full_mc_filter_last["op"] = "process"
              /\ mc_filter_full_mc_filter_f["b0"] = 1)
            /\ mc_filter_full_mc_filter_f["b1"] = 0)
          /\ mc_filter_full_mc_filter_f["b2"] = 0)
        /\ mc_filter_full_mc_filter_f["a1"] = 0)
      /\ mc_filter_full_mc_filter_f["a2"] = 0)
    /\ mc_filter_full_mc_filter_same
    => mc_filter_full_mc_filter_f["out"] = mc_filter_full_mc_filter_last["a"]

(*
  @type: (() => Bool);
*)
mc_filter_full_mc_filter_init ==
  \E mc_filter_full_mc_filter_k \in mc_filter_full_mc_filter_KINDS:
    mc_filter_full_mc_filter_kind = mc_filter_full_mc_filter_k
      /\ mc_filter_full_mc_filter_f
        = mc_filter_full_mc_filter_mc_filter_F_newFilter((mc_filter_full_mc_filter_k
          >= 15))
      /\ mc_filter_full_mc_filter_twin
        = mc_filter_full_mc_filter_mc_filter_F_newFilter((mc_filter_full_mc_filter_k
          < 15))
      /\ mc_filter_full_mc_filter_fresh
        = mc_filter_full_mc_filter_mc_filter_F_newFilter((mc_filter_full_mc_filter_k
          >= 15))
      /\ mc_filter_full_mc_filter_a
        = mc_filter_full_mc_filter_mc_filter_F_newFilter((mc_filter_full_mc_filter_k
          >= 15))
      /\ mc_filter_full_mc_filter_b
        = mc_filter_full_mc_filter_mc_filter_F_newFilter((mc_filter_full_mc_filter_k
          >= 15))
      /\ mc_filter_full_mc_filter_same = TRUE
      /\ mc_filter_full_mc_filter_n = 0
      /\ mc_filter_full_mc_filter_changes = 0
      /\ mc_filter_full_mc_filter_lastRet = 0
      /\ mc_filter_full_mc_filter_last
        = [op |-> "new",
          a |-> mc_filter_full_mc_filter_k,
          b |-> 0,
          c |-> mc_filter_full_mc_filter_NOC]

(*
  @type: (({ a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int }, Int) => { a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int });
*)
mc_filter_full_mc_filter_mc_filter_F_processTransposed(mc_filter_full_mc_filter_mc_filter_F_s_1162,
mc_filter_full_mc_filter_mc_filter_F_x_1162) ==
  LET (*
    @type: (() => Int);
  *)
  mc_filter_full_mc_filter_mc_filter_F_y ==
    mc_filter_full_mc_filter_mc_filter_F_fmul(mc_filter_full_mc_filter_mc_filter_F_s_1162[
      "b0"
    ], mc_filter_full_mc_filter_mc_filter_F_x_1162)
      + mc_filter_full_mc_filter_mc_filter_F_s_1162["z1"]
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_filter_full_mc_filter_mc_filter_F_p1 ==
    mc_filter_full_mc_filter_mc_filter_F_fmul(mc_filter_full_mc_filter_mc_filter_F_s_1162[
      "b1"
    ], mc_filter_full_mc_filter_mc_filter_F_x_1162)
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_filter_full_mc_filter_mc_filter_F_p2 ==
    mc_filter_full_mc_filter_mc_filter_F_fmul(mc_filter_full_mc_filter_mc_filter_F_s_1162[
      "a1"
    ], (mc_filter_full_mc_filter_mc_filter_F_y))
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_filter_full_mc_filter_mc_filter_F_p3 ==
    mc_filter_full_mc_filter_mc_filter_F_fmul(mc_filter_full_mc_filter_mc_filter_F_s_1162[
      "b2"
    ], mc_filter_full_mc_filter_mc_filter_F_x_1162)
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_filter_full_mc_filter_mc_filter_F_p4 ==
    mc_filter_full_mc_filter_mc_filter_F_fmul(mc_filter_full_mc_filter_mc_filter_F_s_1162[
      "a2"
    ], (mc_filter_full_mc_filter_mc_filter_F_y))
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_filter_full_mc_filter_mc_filter_F_m ==
    ((((mc_filter_full_mc_filter_mc_filter_F_fabs((mc_filter_full_mc_filter_mc_filter_F_y))
      + mc_filter_full_mc_filter_mc_filter_F_fabs(mc_filter_full_mc_filter_mc_filter_F_s_1162[
        "z1"
      ]))
      + mc_filter_full_mc_filter_mc_filter_F_fabs((mc_filter_full_mc_filter_mc_filter_F_p1)))
      + mc_filter_full_mc_filter_mc_filter_F_fabs((mc_filter_full_mc_filter_mc_filter_F_p2)))
      + mc_filter_full_mc_filter_mc_filter_F_fabs((mc_filter_full_mc_filter_mc_filter_F_p3)))
      + mc_filter_full_mc_filter_mc_filter_F_fabs((mc_filter_full_mc_filter_mc_filter_F_p4))
  IN
  [
    [
      [
        [
          [
            mc_filter_full_mc_filter_mc_filter_F_s_1162 EXCEPT
              !["z1"] =
                (mc_filter_full_mc_filter_mc_filter_F_p1
                  + mc_filter_full_mc_filter_mc_filter_F_s_1162["z2"])
                  - mc_filter_full_mc_filter_mc_filter_F_p2
          ] EXCEPT
            !["z2"] =
              mc_filter_full_mc_filter_mc_filter_F_p3
                - mc_filter_full_mc_filter_mc_filter_F_p4
        ] EXCEPT
          !["out"] = mc_filter_full_mc_filter_mc_filter_F_y
      ] EXCEPT
        !["now"] = mc_filter_full_mc_filter_mc_filter_F_m
    ] EXCEPT
      !["mag"] =
        mc_filter_full_mc_filter_mc_filter_F_fmax(mc_filter_full_mc_filter_mc_filter_F_s_1162[
          "mag"
        ], (mc_filter_full_mc_filter_mc_filter_F_m))
  ]

(*
  @type: (({ a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int }, Int) => { a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int });
*)
mc_filter_full_mc_filter_mc_filter_F_processDirect(mc_filter_full_mc_filter_mc_filter_F_s_1067,
mc_filter_full_mc_filter_mc_filter_F_x_1067) ==
  LET (*
    @type: (() => Int);
  *)
  mc_filter_full_mc_filter_mc_filter_F_t0 ==
    mc_filter_full_mc_filter_mc_filter_F_fmul(mc_filter_full_mc_filter_mc_filter_F_s_1067[
      "b0"
    ], mc_filter_full_mc_filter_mc_filter_F_x_1067)
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_filter_full_mc_filter_mc_filter_F_t1 ==
    mc_filter_full_mc_filter_mc_filter_F_fmul(mc_filter_full_mc_filter_mc_filter_F_s_1067[
      "b1"
    ], mc_filter_full_mc_filter_mc_filter_F_s_1067["x1"])
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_filter_full_mc_filter_mc_filter_F_t2 ==
    mc_filter_full_mc_filter_mc_filter_F_fmul(mc_filter_full_mc_filter_mc_filter_F_s_1067[
      "b2"
    ], mc_filter_full_mc_filter_mc_filter_F_s_1067["x2"])
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_filter_full_mc_filter_mc_filter_F_t3 ==
    mc_filter_full_mc_filter_mc_filter_F_fmul(mc_filter_full_mc_filter_mc_filter_F_s_1067[
      "a1"
    ], mc_filter_full_mc_filter_mc_filter_F_s_1067["y1"])
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_filter_full_mc_filter_mc_filter_F_t4 ==
    mc_filter_full_mc_filter_mc_filter_F_fmul(mc_filter_full_mc_filter_mc_filter_F_s_1067[
      "a2"
    ], mc_filter_full_mc_filter_mc_filter_F_s_1067["y2"])
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_filter_full_mc_filter_mc_filter_F_y ==
    (((mc_filter_full_mc_filter_mc_filter_F_t0
      + mc_filter_full_mc_filter_mc_filter_F_t1)
      + mc_filter_full_mc_filter_mc_filter_F_t2)
      - mc_filter_full_mc_filter_mc_filter_F_t3)
      - mc_filter_full_mc_filter_mc_filter_F_t4
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_filter_full_mc_filter_mc_filter_F_m ==
    (((mc_filter_full_mc_filter_mc_filter_F_fabs((mc_filter_full_mc_filter_mc_filter_F_t0))
      + mc_filter_full_mc_filter_mc_filter_F_fabs((mc_filter_full_mc_filter_mc_filter_F_t1)))
      + mc_filter_full_mc_filter_mc_filter_F_fabs((mc_filter_full_mc_filter_mc_filter_F_t2)))
      + mc_filter_full_mc_filter_mc_filter_F_fabs((mc_filter_full_mc_filter_mc_filter_F_t3)))
      + mc_filter_full_mc_filter_mc_filter_F_fabs((mc_filter_full_mc_filter_mc_filter_F_t4))
  IN
  [
    [
      [
        [
          [
            [
              [
                mc_filter_full_mc_filter_mc_filter_F_s_1067 EXCEPT
                  !["x2"] = mc_filter_full_mc_filter_mc_filter_F_s_1067["x1"]
              ] EXCEPT
                !["x1"] = mc_filter_full_mc_filter_mc_filter_F_x_1067
            ] EXCEPT
              !["y2"] = mc_filter_full_mc_filter_mc_filter_F_s_1067["y1"]
          ] EXCEPT
            !["y1"] = mc_filter_full_mc_filter_mc_filter_F_y
        ] EXCEPT
          !["out"] = mc_filter_full_mc_filter_mc_filter_F_y
      ] EXCEPT
        !["now"] = mc_filter_full_mc_filter_mc_filter_F_m
    ] EXCEPT
      !["mag"] =
        mc_filter_full_mc_filter_mc_filter_F_fmax(mc_filter_full_mc_filter_mc_filter_F_s_1067[
          "mag"
        ], (mc_filter_full_mc_filter_mc_filter_F_m))
  ]

(*
  @type: (() => Bool);
*)
mc_filter_full_mc_filter_doCoefs ==
  \E mc_filter_full_mc_filter_c \in mc_filter_full_mc_filter_COEFS:
    mc_filter_full_mc_filter_setAll(mc_filter_full_mc_filter_c, (mc_filter_full_mc_filter_putCoefs(mc_filter_full_mc_filter_f,
    mc_filter_full_mc_filter_kind, mc_filter_full_mc_filter_c)), "set_coefficients",
    0, 0)

(*
  @type: (() => Bool);
*)
mc_filter_full_mc_filter_doField ==
  \E mc_filter_full_mc_filter_i \in 0 .. 4:
    \E mc_filter_full_mc_filter_v \in { 0, 2 }:
      mc_filter_full_mc_filter_has(mc_filter_full_mc_filter_kind, mc_filter_full_mc_filter_i)
        /\ mc_filter_full_mc_filter_n < mc_filter_full_mc_filter_DEPTH
        /\ mc_filter_full_mc_filter_setAll((mc_filter_full_mc_filter_NOC), (mc_filter_full_mc_filter_putField(mc_filter_full_mc_filter_f,
        mc_filter_full_mc_filter_i, mc_filter_full_mc_filter_v)), "field", mc_filter_full_mc_filter_i,
        mc_filter_full_mc_filter_v)

(*
  @type: (() => Bool);
*)
mc_filter_full_mc_filter_doClear ==
  mc_filter_full_mc_filter_f'
      := (mc_filter_full_mc_filter_mc_filter_F_clear(mc_filter_full_mc_filter_f))
    /\ mc_filter_full_mc_filter_twin'
      := (mc_filter_full_mc_filter_mc_filter_F_clear(mc_filter_full_mc_filter_twin))
    /\ mc_filter_full_mc_filter_fresh'
      := (mc_filter_full_mc_filter_mc_filter_F_setCoefs((mc_filter_full_mc_filter_mc_filter_F_newFilter((mc_filter_full_mc_filter_kind
        >= 15))), mc_filter_full_mc_filter_f["b0"], mc_filter_full_mc_filter_f[
        "b1"
      ], mc_filter_full_mc_filter_f["b2"], mc_filter_full_mc_filter_f["a1"], mc_filter_full_mc_filter_f[
        "a2"
      ]))
    /\ mc_filter_full_mc_filter_a'
      := (mc_filter_full_mc_filter_mc_filter_F_clear(mc_filter_full_mc_filter_a))
    /\ mc_filter_full_mc_filter_b'
      := (mc_filter_full_mc_filter_mc_filter_F_clear(mc_filter_full_mc_filter_b))
    /\ mc_filter_full_mc_filter_same' := TRUE
    /\ mc_filter_full_mc_filter_n' := 0
    /\ mc_filter_full_mc_filter_lastRet' := 0
    /\ mc_filter_full_mc_filter_kind' := mc_filter_full_mc_filter_kind
    /\ mc_filter_full_mc_filter_changes' := mc_filter_full_mc_filter_changes
    /\ mc_filter_full_mc_filter_last'
      := [op |-> "clear", a |-> 0, b |-> 0, c |-> mc_filter_full_mc_filter_NOC]

(*
  @type: (() => Bool);
*)
mc_filter_full_mc_filter_allOk ==
  mc_filter_full_mc_filter_twinOk
    /\ mc_filter_full_mc_filter_linearOk
    /\ mc_filter_full_mc_filter_clearOk
    /\ mc_filter_full_mc_filter_lastOk
    /\ mc_filter_full_mc_filter_newOk

(*
  @type: (() => Bool);
*)
q_init == mc_filter_full_mc_filter_init

(*
  @type: (({ a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int }, Int) => { a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int });
*)
mc_filter_full_mc_filter_mc_filter_F_process(mc_filter_full_mc_filter_mc_filter_F_s_1179,
mc_filter_full_mc_filter_mc_filter_F_x_1179) ==
  IF mc_filter_full_mc_filter_mc_filter_F_s_1179["transposed"]
  THEN mc_filter_full_mc_filter_mc_filter_F_processTransposed(mc_filter_full_mc_filter_mc_filter_F_s_1179,
  mc_filter_full_mc_filter_mc_filter_F_x_1179)
  ELSE mc_filter_full_mc_filter_mc_filter_F_processDirect(mc_filter_full_mc_filter_mc_filter_F_s_1179,
  mc_filter_full_mc_filter_mc_filter_F_x_1179)

(*
  @type: (() => Bool);
*)
q_inv == mc_filter_full_mc_filter_allOk

(*
  @type: (() => Bool);
*)
mc_filter_full_mc_filter_doProcess ==
  \E mc_filter_full_mc_filter_x \in mc_filter_full_mc_filter_VALS:
    LET (*
      @type: (() => Int);
    *)
    mc_filter_full_mc_filter_u ==
      IF mc_filter_full_mc_filter_n % 2 = 0
      THEN mc_filter_full_mc_filter_x
      ELSE 0
    IN
    LET (*
      @type: (() => { a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int });
    *)
    mc_filter_full_mc_filter_g ==
      mc_filter_full_mc_filter_mc_filter_F_process(mc_filter_full_mc_filter_f, mc_filter_full_mc_filter_x)
    IN
    mc_filter_full_mc_filter_n < mc_filter_full_mc_filter_DEPTH
      /\ mc_filter_full_mc_filter_f'
        := (mc_filter_full_mc_filter_slim((mc_filter_full_mc_filter_g)))
      /\ mc_filter_full_mc_filter_twin'
        := (mc_filter_full_mc_filter_slim((mc_filter_full_mc_filter_mc_filter_F_process(mc_filter_full_mc_filter_twin,
        mc_filter_full_mc_filter_x))))
      /\ mc_filter_full_mc_filter_fresh'
        := (mc_filter_full_mc_filter_slim((mc_filter_full_mc_filter_mc_filter_F_process(mc_filter_full_mc_filter_fresh,
        mc_filter_full_mc_filter_x))))
      /\ mc_filter_full_mc_filter_a'
        := (mc_filter_full_mc_filter_slim((mc_filter_full_mc_filter_mc_filter_F_process(mc_filter_full_mc_filter_a,
        (mc_filter_full_mc_filter_u)))))
      /\ mc_filter_full_mc_filter_b'
        := (mc_filter_full_mc_filter_slim((mc_filter_full_mc_filter_mc_filter_F_process(mc_filter_full_mc_filter_b,
        (mc_filter_full_mc_filter_x - mc_filter_full_mc_filter_u)))))
      /\ mc_filter_full_mc_filter_n' := (mc_filter_full_mc_filter_n + 1)
      /\ mc_filter_full_mc_filter_lastRet'
        := (mc_filter_full_mc_filter_g)["out"]
      /\ mc_filter_full_mc_filter_kind' := mc_filter_full_mc_filter_kind
      /\ mc_filter_full_mc_filter_same' := mc_filter_full_mc_filter_same
      /\ mc_filter_full_mc_filter_changes' := mc_filter_full_mc_filter_changes
      /\ mc_filter_full_mc_filter_last'
        := [op |-> "process",
          a |-> mc_filter_full_mc_filter_x,
          b |-> 0,
          c |-> mc_filter_full_mc_filter_NOC]

(*
  @type: (() => Bool);
*)
mc_filter_full_mc_filter_step ==
  mc_filter_full_mc_filter_doProcess
    \/ mc_filter_full_mc_filter_doCoefs
    \/ mc_filter_full_mc_filter_doField
    \/ mc_filter_full_mc_filter_doClear

(*
  @type: (() => Bool);
*)
q_step == mc_filter_full_mc_filter_step

================================================================================
