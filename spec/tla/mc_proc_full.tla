\* compiled from mc_proc.qnt 9cdffcb42b1378720904f0bac665cb147e47b070874d1fa61269f4c5db478223
----------------------------- MODULE mc_proc_full -----------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

VARIABLE
  (*
    @type: (Int -> { a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int });
  *)
  mc_proc_full_mc_proc_f

(*
  @type: (({ a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int }, Int, Int, Int, Int, Int) => { a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int });
*)
mc_proc_full_mc_proc_mc_proc_F_setCoefs(mc_proc_full_mc_proc_mc_proc_F_s_636, mc_proc_full_mc_proc_mc_proc_F_b0_636,
mc_proc_full_mc_proc_mc_proc_F_b1_636, mc_proc_full_mc_proc_mc_proc_F_b2_636, mc_proc_full_mc_proc_mc_proc_F_a1_636,
mc_proc_full_mc_proc_mc_proc_F_a2_636) ==
  [
    [
      [
        [
          [
            mc_proc_full_mc_proc_mc_proc_F_s_636 EXCEPT
              !["b0"] = mc_proc_full_mc_proc_mc_proc_F_b0_636
          ] EXCEPT
            !["b1"] = mc_proc_full_mc_proc_mc_proc_F_b1_636
        ] EXCEPT
          !["b2"] = mc_proc_full_mc_proc_mc_proc_F_b2_636
      ] EXCEPT
        !["a1"] = mc_proc_full_mc_proc_mc_proc_F_a1_636
    ] EXCEPT
      !["a2"] = mc_proc_full_mc_proc_mc_proc_F_a2_636
  ]

(*
  @type: (() => Int);
*)
mc_proc_full_mc_proc_mc_proc_F_UNIT == 1

VARIABLE
  (*
    @type: (Int -> Seq(Int));
  *)
  mc_proc_full_mc_proc_log

VARIABLE
  (*
    @type: (Int -> Int);
  *)
  mc_proc_full_mc_proc_ret

VARIABLE
  (*
    @type: Int;
  *)
  mc_proc_full_mc_proc_calls

VARIABLE
  (*
    @type: { obj: Int, op: Str, xs: Seq(Int) };
  *)
  mc_proc_full_mc_proc_last

(*
  @type: (() => Set(Int));
*)
mc_proc_full_mc_proc_VALS == { 0, 1, 3 }

(*
  @type: ((Int) => Int);
*)
mc_proc_full_mc_proc_mc_proc_F_fabs(mc_proc_full_mc_proc_mc_proc_F_a_532) ==
  IF mc_proc_full_mc_proc_mc_proc_F_a_532 < 0
  THEN -mc_proc_full_mc_proc_mc_proc_F_a_532
  ELSE mc_proc_full_mc_proc_mc_proc_F_a_532

(*
  @type: ((Int, Int) => Int);
*)
mc_proc_full_mc_proc_mc_proc_F_fmax(mc_proc_full_mc_proc_mc_proc_F_a_545, mc_proc_full_mc_proc_mc_proc_F_b_545) ==
  IF mc_proc_full_mc_proc_mc_proc_F_a_545 < mc_proc_full_mc_proc_mc_proc_F_b_545
  THEN mc_proc_full_mc_proc_mc_proc_F_b_545
  ELSE mc_proc_full_mc_proc_mc_proc_F_a_545

(*
  @type: (() => Int);
*)
mc_proc_full_mc_proc_DEPTH == 4

(*
  @type: (({ a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int }) => { a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int });
*)
mc_proc_full_mc_proc_slim(mc_proc_full_mc_proc_s_40) ==
  [ [ mc_proc_full_mc_proc_s_40 EXCEPT !["mag"] = 0 ] EXCEPT !["now"] = 0 ]

(*
  @type: (({ a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int }) => { a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int });
*)
mc_proc_full_mc_proc_mc_proc_F_clear(mc_proc_full_mc_proc_mc_proc_F_s_669) ==
  [
    [
      [
        [
          [
            [
              [
                [
                  [ mc_proc_full_mc_proc_mc_proc_F_s_669 EXCEPT !["x1"] = 0 ] EXCEPT
                    !["x2"] = 0
                ] EXCEPT
                  !["y1"] = 0
              ] EXCEPT
                !["y2"] = 0
            ] EXCEPT
              !["z1"] = 0
          ] EXCEPT
            !["z2"] = 0
        ] EXCEPT
          !["out"] = 0
      ] EXCEPT
        !["mag"] = 0
    ] EXCEPT
      !["now"] = 0
  ]

(*
  @type: ((Seq(Int)) => Seq(Int));
*)
mc_proc_full_mc_proc_sounding(mc_proc_full_mc_proc_xs_427) ==
  LET (*
    @type: ((Seq(Int), Int) => Seq(Int));
  *)
  __QUINT_LAMBDA2(mc_proc_full_mc_proc_acc_425, mc_proc_full_mc_proc_x_425) ==
    IF mc_proc_full_mc_proc_x_425 = 0 /\ Len(mc_proc_full_mc_proc_acc_425) = 0
    THEN mc_proc_full_mc_proc_acc_425
    ELSE Append(mc_proc_full_mc_proc_acc_425, mc_proc_full_mc_proc_x_425)
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA2, <<>>, mc_proc_full_mc_proc_xs_427)

(*
  @type: ((Bool) => { a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int });
*)
mc_proc_full_mc_proc_mc_proc_F_newFilter(mc_proc_full_mc_proc_mc_proc_F_transposed_605) ==
  [b0 |-> mc_proc_full_mc_proc_mc_proc_F_UNIT,
    b1 |-> 0,
    b2 |-> 0,
    a1 |-> 0,
    a2 |-> 0,
    x1 |-> 0,
    x2 |-> 0,
    y1 |-> 0,
    y2 |-> 0,
    z1 |-> 0,
    z2 |-> 0,
    transposed |-> mc_proc_full_mc_proc_mc_proc_F_transposed_605,
    out |-> 0,
    mag |-> 0,
    now |-> 0]

(*
  @type: ((Int, Int) => Int);
*)
mc_proc_full_mc_proc_mc_proc_F_fmul(mc_proc_full_mc_proc_mc_proc_F_a_569, mc_proc_full_mc_proc_mc_proc_F_b_569) ==
  LET (*
    @type: (() => Int);
  *)
  mc_proc_full_mc_proc_mc_proc_F_p ==
    mc_proc_full_mc_proc_mc_proc_F_a_569 * mc_proc_full_mc_proc_mc_proc_F_b_569
  IN
  IF mc_proc_full_mc_proc_mc_proc_F_p < 0
  THEN -((-mc_proc_full_mc_proc_mc_proc_F_p)
    \div mc_proc_full_mc_proc_mc_proc_F_UNIT)
  ELSE mc_proc_full_mc_proc_mc_proc_F_p \div mc_proc_full_mc_proc_mc_proc_F_UNIT

(*
  @type: (() => Bool);
*)
mc_proc_full_mc_proc_doClear ==
  \E mc_proc_full_mc_proc_o \in { 1, 2 }:
    mc_proc_full_mc_proc_calls < mc_proc_full_mc_proc_DEPTH
      /\ mc_proc_full_mc_proc_calls' := (mc_proc_full_mc_proc_calls + 1)
      /\ mc_proc_full_mc_proc_f'
        := [
          mc_proc_full_mc_proc_f EXCEPT
            ![mc_proc_full_mc_proc_o] =
              mc_proc_full_mc_proc_mc_proc_F_clear(mc_proc_full_mc_proc_f[
                mc_proc_full_mc_proc_o
              ])
        ]
      /\ mc_proc_full_mc_proc_log'
        := [ mc_proc_full_mc_proc_log EXCEPT ![mc_proc_full_mc_proc_o] = <<>> ]
      /\ mc_proc_full_mc_proc_ret'
        := [ mc_proc_full_mc_proc_ret EXCEPT ![mc_proc_full_mc_proc_o] = 0 ]
      /\ mc_proc_full_mc_proc_last'
        := [op |-> "clear", obj |-> mc_proc_full_mc_proc_o, xs |-> <<>>]

(*
  @type: (() => Bool);
*)
mc_proc_full_mc_proc_lastOk ==
  \A mc_proc_full_mc_proc_o_400 \in { 1, 2 }:
    mc_proc_full_mc_proc_f[mc_proc_full_mc_proc_o_400]["out"]
      = mc_proc_full_mc_proc_ret[mc_proc_full_mc_proc_o_400]

(*
  @type: (() => { a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int });
*)
mc_proc_full_mc_proc_fresh ==
  mc_proc_full_mc_proc_mc_proc_F_setCoefs((mc_proc_full_mc_proc_mc_proc_F_newFilter(FALSE)),
  1, 2, 4, 0, 0)

(*
  @type: (({ a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int }, Int) => { a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int });
*)
mc_proc_full_mc_proc_mc_proc_F_processTransposed(mc_proc_full_mc_proc_mc_proc_F_s_871,
mc_proc_full_mc_proc_mc_proc_F_x_871) ==
  LET (*
    @type: (() => Int);
  *)
  mc_proc_full_mc_proc_mc_proc_F_y ==
    mc_proc_full_mc_proc_mc_proc_F_fmul(mc_proc_full_mc_proc_mc_proc_F_s_871[
      "b0"
    ], mc_proc_full_mc_proc_mc_proc_F_x_871)
      + mc_proc_full_mc_proc_mc_proc_F_s_871["z1"]
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_proc_full_mc_proc_mc_proc_F_p1 ==
    mc_proc_full_mc_proc_mc_proc_F_fmul(mc_proc_full_mc_proc_mc_proc_F_s_871[
      "b1"
    ], mc_proc_full_mc_proc_mc_proc_F_x_871)
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_proc_full_mc_proc_mc_proc_F_p2 ==
    mc_proc_full_mc_proc_mc_proc_F_fmul(mc_proc_full_mc_proc_mc_proc_F_s_871[
      "a1"
    ], (mc_proc_full_mc_proc_mc_proc_F_y))
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_proc_full_mc_proc_mc_proc_F_p3 ==
    mc_proc_full_mc_proc_mc_proc_F_fmul(mc_proc_full_mc_proc_mc_proc_F_s_871[
      "b2"
    ], mc_proc_full_mc_proc_mc_proc_F_x_871)
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_proc_full_mc_proc_mc_proc_F_p4 ==
    mc_proc_full_mc_proc_mc_proc_F_fmul(mc_proc_full_mc_proc_mc_proc_F_s_871[
      "a2"
    ], (mc_proc_full_mc_proc_mc_proc_F_y))
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_proc_full_mc_proc_mc_proc_F_m ==
    ((((mc_proc_full_mc_proc_mc_proc_F_fabs((mc_proc_full_mc_proc_mc_proc_F_y))
      + mc_proc_full_mc_proc_mc_proc_F_fabs(mc_proc_full_mc_proc_mc_proc_F_s_871[
        "z1"
      ]))
      + mc_proc_full_mc_proc_mc_proc_F_fabs((mc_proc_full_mc_proc_mc_proc_F_p1)))
      + mc_proc_full_mc_proc_mc_proc_F_fabs((mc_proc_full_mc_proc_mc_proc_F_p2)))
      + mc_proc_full_mc_proc_mc_proc_F_fabs((mc_proc_full_mc_proc_mc_proc_F_p3)))
      + mc_proc_full_mc_proc_mc_proc_F_fabs((mc_proc_full_mc_proc_mc_proc_F_p4))
  IN
  [
    [
      [
        [
          [
            mc_proc_full_mc_proc_mc_proc_F_s_871 EXCEPT
              !["z1"] =
                (mc_proc_full_mc_proc_mc_proc_F_p1
                  + mc_proc_full_mc_proc_mc_proc_F_s_871["z2"])
                  - mc_proc_full_mc_proc_mc_proc_F_p2
          ] EXCEPT
            !["z2"] =
              mc_proc_full_mc_proc_mc_proc_F_p3
                - mc_proc_full_mc_proc_mc_proc_F_p4
        ] EXCEPT
          !["out"] = mc_proc_full_mc_proc_mc_proc_F_y
      ] EXCEPT
        !["now"] = mc_proc_full_mc_proc_mc_proc_F_m
    ] EXCEPT
      !["mag"] =
        mc_proc_full_mc_proc_mc_proc_F_fmax(mc_proc_full_mc_proc_mc_proc_F_s_871[
          "mag"
        ], (mc_proc_full_mc_proc_mc_proc_F_m))
  ]

(*
  @type: (({ a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int }, Int) => { a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int });
*)
mc_proc_full_mc_proc_mc_proc_F_processDirect(mc_proc_full_mc_proc_mc_proc_F_s_776,
mc_proc_full_mc_proc_mc_proc_F_x_776) ==
  LET (*
    @type: (() => Int);
  *)
  mc_proc_full_mc_proc_mc_proc_F_t0 ==
    mc_proc_full_mc_proc_mc_proc_F_fmul(mc_proc_full_mc_proc_mc_proc_F_s_776[
      "b0"
    ], mc_proc_full_mc_proc_mc_proc_F_x_776)
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_proc_full_mc_proc_mc_proc_F_t1 ==
    mc_proc_full_mc_proc_mc_proc_F_fmul(mc_proc_full_mc_proc_mc_proc_F_s_776[
      "b1"
    ], mc_proc_full_mc_proc_mc_proc_F_s_776["x1"])
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_proc_full_mc_proc_mc_proc_F_t2 ==
    mc_proc_full_mc_proc_mc_proc_F_fmul(mc_proc_full_mc_proc_mc_proc_F_s_776[
      "b2"
    ], mc_proc_full_mc_proc_mc_proc_F_s_776["x2"])
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_proc_full_mc_proc_mc_proc_F_t3 ==
    mc_proc_full_mc_proc_mc_proc_F_fmul(mc_proc_full_mc_proc_mc_proc_F_s_776[
      "a1"
    ], mc_proc_full_mc_proc_mc_proc_F_s_776["y1"])
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_proc_full_mc_proc_mc_proc_F_t4 ==
    mc_proc_full_mc_proc_mc_proc_F_fmul(mc_proc_full_mc_proc_mc_proc_F_s_776[
      "a2"
    ], mc_proc_full_mc_proc_mc_proc_F_s_776["y2"])
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_proc_full_mc_proc_mc_proc_F_y ==
    (((mc_proc_full_mc_proc_mc_proc_F_t0 + mc_proc_full_mc_proc_mc_proc_F_t1)
      + mc_proc_full_mc_proc_mc_proc_F_t2)
      - mc_proc_full_mc_proc_mc_proc_F_t3)
      - mc_proc_full_mc_proc_mc_proc_F_t4
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_proc_full_mc_proc_mc_proc_F_m ==
    (((mc_proc_full_mc_proc_mc_proc_F_fabs((mc_proc_full_mc_proc_mc_proc_F_t0))
      + mc_proc_full_mc_proc_mc_proc_F_fabs((mc_proc_full_mc_proc_mc_proc_F_t1)))
      + mc_proc_full_mc_proc_mc_proc_F_fabs((mc_proc_full_mc_proc_mc_proc_F_t2)))
      + mc_proc_full_mc_proc_mc_proc_F_fabs((mc_proc_full_mc_proc_mc_proc_F_t3)))
      + mc_proc_full_mc_proc_mc_proc_F_fabs((mc_proc_full_mc_proc_mc_proc_F_t4))
  IN
  [
    [
      [
        [
          [
            [
              [
                mc_proc_full_mc_proc_mc_proc_F_s_776 EXCEPT
                  !["x2"] = mc_proc_full_mc_proc_mc_proc_F_s_776["x1"]
              ] EXCEPT
                !["x1"] = mc_proc_full_mc_proc_mc_proc_F_x_776
            ] EXCEPT
              !["y2"] = mc_proc_full_mc_proc_mc_proc_F_s_776["y1"]
          ] EXCEPT
            !["y1"] = mc_proc_full_mc_proc_mc_proc_F_y
        ] EXCEPT
          !["out"] = mc_proc_full_mc_proc_mc_proc_F_y
      ] EXCEPT
        !["now"] = mc_proc_full_mc_proc_mc_proc_F_m
    ] EXCEPT
      !["mag"] =
        mc_proc_full_mc_proc_mc_proc_F_fmax(mc_proc_full_mc_proc_mc_proc_F_s_776[
          "mag"
        ], (mc_proc_full_mc_proc_mc_proc_F_m))
  ]

(*
  @type: (() => Bool);
*)
mc_proc_full_mc_proc_init ==
  mc_proc_full_mc_proc_f
      = SetAsFun({ <<1, (mc_proc_full_mc_proc_fresh)>>,
        <<2, (mc_proc_full_mc_proc_fresh)>> })
    /\ mc_proc_full_mc_proc_log = SetAsFun({ <<1, <<>>>>, <<2, <<>>>> })
    /\ mc_proc_full_mc_proc_ret = SetAsFun({ <<1, 0>>, <<2, 0>> })
    /\ mc_proc_full_mc_proc_calls = 0
    /\ mc_proc_full_mc_proc_last = [op |-> "new", obj |-> 0, xs |-> <<>>]

(*
  @type: (({ a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int }, Int) => { a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int });
*)
mc_proc_full_mc_proc_mc_proc_F_process(mc_proc_full_mc_proc_mc_proc_F_s_888, mc_proc_full_mc_proc_mc_proc_F_x_888) ==
  IF mc_proc_full_mc_proc_mc_proc_F_s_888["transposed"]
  THEN mc_proc_full_mc_proc_mc_proc_F_processTransposed(mc_proc_full_mc_proc_mc_proc_F_s_888,
  mc_proc_full_mc_proc_mc_proc_F_x_888)
  ELSE mc_proc_full_mc_proc_mc_proc_F_processDirect(mc_proc_full_mc_proc_mc_proc_F_s_888,
  mc_proc_full_mc_proc_mc_proc_F_x_888)

(*
  @type: (() => Bool);
*)
q_init == mc_proc_full_mc_proc_init

(*
  @type: (() => Bool);
*)
mc_proc_full_mc_proc_doProcess ==
  \E mc_proc_full_mc_proc_o \in { 1, 2 }:
    \E mc_proc_full_mc_proc_x \in mc_proc_full_mc_proc_VALS:
      LET (*
        @type: (() => { a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int });
      *)
      mc_proc_full_mc_proc_g ==
        mc_proc_full_mc_proc_mc_proc_F_process(mc_proc_full_mc_proc_f[
          mc_proc_full_mc_proc_o
        ], mc_proc_full_mc_proc_x)
      IN
      mc_proc_full_mc_proc_calls < mc_proc_full_mc_proc_DEPTH
        /\ mc_proc_full_mc_proc_calls' := (mc_proc_full_mc_proc_calls + 1)
        /\ mc_proc_full_mc_proc_f'
          := [
            mc_proc_full_mc_proc_f EXCEPT
              ![mc_proc_full_mc_proc_o] =
                mc_proc_full_mc_proc_slim((mc_proc_full_mc_proc_g))
          ]
        /\ mc_proc_full_mc_proc_log'
          := [
            mc_proc_full_mc_proc_log EXCEPT
              ![mc_proc_full_mc_proc_o] =
                Append(mc_proc_full_mc_proc_log[mc_proc_full_mc_proc_o], mc_proc_full_mc_proc_x)
          ]
        /\ mc_proc_full_mc_proc_ret'
          := [
            mc_proc_full_mc_proc_ret EXCEPT
              ![mc_proc_full_mc_proc_o] = (mc_proc_full_mc_proc_g)["out"]
          ]
        /\ mc_proc_full_mc_proc_last'
          := [op |-> "process",
            obj |-> mc_proc_full_mc_proc_o,
            xs |-> <<mc_proc_full_mc_proc_x>>]

(*
  @type: (({ a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int }, Seq(Int)) => { r: Int, s: { a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int }, ys: Seq(Int) });
*)
mc_proc_full_mc_proc_block(mc_proc_full_mc_proc_s_118, mc_proc_full_mc_proc_xs_118) ==
  LET (*
    @type: (() => { s: { a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int }, ys: Seq(Int) });
  *)
  mc_proc_full_mc_proc_e ==
    LET (*
      @type: (({ s: { a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int }, ys: Seq(Int) }, Int) => { s: { a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int }, ys: Seq(Int) });
    *)
    __QUINT_LAMBDA0(mc_proc_full_mc_proc_acc_88, mc_proc_full_mc_proc_x_88) ==
      LET (*
        @type: (() => { a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int });
      *)
      mc_proc_full_mc_proc_g ==
        mc_proc_full_mc_proc_mc_proc_F_process(mc_proc_full_mc_proc_acc_88["s"],
        mc_proc_full_mc_proc_x_88)
      IN
      [s |-> mc_proc_full_mc_proc_g,
        ys |->
          Append(mc_proc_full_mc_proc_acc_88["ys"], (mc_proc_full_mc_proc_g)[
            "out"
          ])]
    IN
    ApaFoldSeqLeft(__QUINT_LAMBDA0, [s |-> mc_proc_full_mc_proc_s_118,
      ys |-> <<>>], mc_proc_full_mc_proc_xs_118)
  IN
  [s |-> (mc_proc_full_mc_proc_e)["s"],
    ys |-> (mc_proc_full_mc_proc_e)["ys"],
    r |->
      IF Len(mc_proc_full_mc_proc_xs_118) = 0
      THEN mc_proc_full_mc_proc_s_118["out"]
      ELSE (mc_proc_full_mc_proc_e)["ys"][
        (Len(mc_proc_full_mc_proc_xs_118) - 1 + 1)
      ]]

(*
  @type: ((Seq(Int)) => { a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int });
*)
mc_proc_full_mc_proc_replay(mc_proc_full_mc_proc_xs_133) ==
  LET (*
    @type: (({ a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int }, Int) => { a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int });
  *)
  __QUINT_LAMBDA1(mc_proc_full_mc_proc_s_131, mc_proc_full_mc_proc_x_131) ==
    mc_proc_full_mc_proc_mc_proc_F_process(mc_proc_full_mc_proc_s_131, mc_proc_full_mc_proc_x_131)
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA1, (mc_proc_full_mc_proc_fresh), mc_proc_full_mc_proc_xs_133)

(*
  @type: (() => Bool);
*)
mc_proc_full_mc_proc_doBlock ==
  \E mc_proc_full_mc_proc_o \in { 1, 2 }:
    \E mc_proc_full_mc_proc_n \in 0 .. 3:
      \E mc_proc_full_mc_proc_x \in mc_proc_full_mc_proc_VALS:
        \E mc_proc_full_mc_proc_y \in mc_proc_full_mc_proc_VALS:
          LET (*
            @type: (() => Seq(Int));
          *)
          mc_proc_full_mc_proc_xs ==
            SubSeq(<<
              mc_proc_full_mc_proc_x, mc_proc_full_mc_proc_y, mc_proc_full_mc_proc_x
            >>, (0 + 1), mc_proc_full_mc_proc_n)
          IN
          LET (*
            @type: (() => { r: Int, s: { a1: Int, a2: Int, b0: Int, b1: Int, b2: Int, mag: Int, now: Int, out: Int, transposed: Bool, x1: Int, x2: Int, y1: Int, y2: Int, z1: Int, z2: Int }, ys: Seq(Int) });
          *)
          mc_proc_full_mc_proc_b ==
            mc_proc_full_mc_proc_block(mc_proc_full_mc_proc_f[
              mc_proc_full_mc_proc_o
            ], (mc_proc_full_mc_proc_xs))
          IN
          mc_proc_full_mc_proc_calls < mc_proc_full_mc_proc_DEPTH
            /\ mc_proc_full_mc_proc_calls' := (mc_proc_full_mc_proc_calls + 1)
            /\ mc_proc_full_mc_proc_f'
              := [
                mc_proc_full_mc_proc_f EXCEPT
                  ![mc_proc_full_mc_proc_o] =
                    mc_proc_full_mc_proc_slim((mc_proc_full_mc_proc_b)["s"])
              ]
            /\ mc_proc_full_mc_proc_log'
              := [
                mc_proc_full_mc_proc_log EXCEPT
                  ![mc_proc_full_mc_proc_o] =
                    mc_proc_full_mc_proc_log[mc_proc_full_mc_proc_o]
                      \o mc_proc_full_mc_proc_xs
              ]
            /\ mc_proc_full_mc_proc_ret'
              := [
                mc_proc_full_mc_proc_ret EXCEPT
                  ![mc_proc_full_mc_proc_o] = (mc_proc_full_mc_proc_b)["r"]
              ]
            /\ mc_proc_full_mc_proc_last'
              := [op |-> "block",
                obj |-> mc_proc_full_mc_proc_o,
                xs |-> mc_proc_full_mc_proc_xs]

(*
  @type: (() => Bool);
*)
mc_proc_full_mc_proc_ownOk ==
  \A mc_proc_full_mc_proc_o_384 \in { 1, 2 }:
    mc_proc_full_mc_proc_f[mc_proc_full_mc_proc_o_384]
      = mc_proc_full_mc_proc_slim((mc_proc_full_mc_proc_replay(mc_proc_full_mc_proc_log[
        mc_proc_full_mc_proc_o_384
      ])))

(*
  @type: (() => Bool);
*)
mc_proc_full_mc_proc_timeOk ==
  \A mc_proc_full_mc_proc_o_443 \in { 1, 2 }:
    mc_proc_full_mc_proc_f[mc_proc_full_mc_proc_o_443]
      = mc_proc_full_mc_proc_slim((mc_proc_full_mc_proc_replay((mc_proc_full_mc_proc_sounding(mc_proc_full_mc_proc_log[
        mc_proc_full_mc_proc_o_443
      ])))))

(*
  @type: (() => Bool);
*)
mc_proc_full_mc_proc_scaleOk ==
  \A mc_proc_full_mc_proc_o_476 \in { 1, 2 }:
    (mc_proc_full_mc_proc_replay(LET (*
      @type: ((Seq(Int), Int) => Seq(Int));
    *)
    __QUINT_LAMBDA3(mc_proc_full_mc_proc_acc_462, mc_proc_full_mc_proc_x_462) ==
      Append(mc_proc_full_mc_proc_acc_462, ((-4) * mc_proc_full_mc_proc_x_462))
    IN
    ApaFoldSeqLeft(__QUINT_LAMBDA3, <<>>, mc_proc_full_mc_proc_log[
      mc_proc_full_mc_proc_o_476
    ])))[
      "out"
    ]
      = (-4) * mc_proc_full_mc_proc_f[mc_proc_full_mc_proc_o_476]["out"]

(*
  @type: (() => Bool);
*)
mc_proc_full_mc_proc_step ==
  mc_proc_full_mc_proc_doProcess
    \/ mc_proc_full_mc_proc_doBlock
    \/ mc_proc_full_mc_proc_doClear

(*
  @type: (() => Bool);
*)
mc_proc_full_mc_proc_allOk ==
  mc_proc_full_mc_proc_ownOk
    /\ mc_proc_full_mc_proc_lastOk
    /\ mc_proc_full_mc_proc_timeOk
    /\ mc_proc_full_mc_proc_scaleOk

(*
  @type: (() => Bool);
*)
q_step == mc_proc_full_mc_proc_step

(*
  @type: (() => Bool);
*)
q_inv == mc_proc_full_mc_proc_allOk

================================================================================
