\* compiled from mc_delay.qnt 3b0a52bd14cc3e441dca644362d02c915a8c243d4f93ba384b3a47ba574549c7
-------------------------- MODULE mc_delay_lin_small --------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

(*
  @type: (() => Set(Int));
*)
mc_delay_lin_small_mc_delay_CAPS == { 0, 1, 2 }

(*
  @type: (() => Set(Int));
*)
mc_delay_lin_small_mc_delay_DELAYS == { (-3), 0, 1, 2, 3, 4, 9 }

VARIABLE
  (*
    @type: { alpha: Int, cache: Int, delay: Int, mem: Seq(Int), out: Int, r: Int, stale: Bool, w: Int };
  *)
  mc_delay_lin_small_mc_delay_ring

(*
  @type: (({ alpha: Int, cache: Int, delay: Int, mem: Seq(Int), out: Int, r: Int, stale: Bool, w: Int }) => Int);
*)
mc_delay_lin_small_mc_delay_len(mc_delay_lin_small_mc_delay_g_50) ==
  Len(mc_delay_lin_small_mc_delay_g_50["mem"])

(*
  @type: (() => Int);
*)
mc_delay_lin_small_mc_delay_FDEN == 2

(*
  @type: (() => Bool);
*)
mc_delay_lin_small_mc_delay_INVALIDATE == TRUE

(*
  @type: ((Int) => Seq(Int));
*)
mc_delay_lin_small_mc_delay_mc_delay_D_zeros(mc_delay_lin_small_mc_delay_mc_delay_D_n_1036) ==
  LET (*
    @type: ((Seq(Int), Int) => Seq(Int));
  *)
  __QUINT_LAMBDA1(mc_delay_lin_small_mc_delay_mc_delay_D_l_1034, mc_delay_lin_small_mc_delay_mc_delay_D___1034) ==
    Append(mc_delay_lin_small_mc_delay_mc_delay_D_l_1034, 0)
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA1, <<>>, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA0(__quint_var0) == (0 + __quint_var0) - 1
  IN
  MkSeq((mc_delay_lin_small_mc_delay_mc_delay_D_n_1036 - 0), __QUINT_LAMBDA0)))

VARIABLE
  (*
    @type: { cap: Int, delay: Int, hist: Seq(Int), out: Int };
  *)
  mc_delay_lin_small_mc_delay_line

VARIABLE
  (*
    @type: { a: Int, b: Int, op: Str };
  *)
  mc_delay_lin_small_mc_delay_last

(*
  @type: (() => Set(Int));
*)
mc_delay_lin_small_mc_delay_VALS == { 0, 2 }

(*
  @type: (({ cap: Int, delay: Int, hist: Seq(Int), out: Int }) => { cap: Int, delay: Int, hist: Seq(Int), out: Int });
*)
mc_delay_lin_small_mc_delay_mc_delay_D_trim(mc_delay_lin_small_mc_delay_mc_delay_D_s_1389) ==
  [
    mc_delay_lin_small_mc_delay_mc_delay_D_s_1389 EXCEPT
      !["hist"] =
        SubSeq(mc_delay_lin_small_mc_delay_mc_delay_D_s_1389["hist"], ((Len(mc_delay_lin_small_mc_delay_mc_delay_D_s_1389[
          "hist"
        ])
          - mc_delay_lin_small_mc_delay_mc_delay_D_s_1389["cap"])
          - 1
          + 1), (Len(mc_delay_lin_small_mc_delay_mc_delay_D_s_1389["hist"])))
  ]

(*
  @type: (({ cap: Int, delay: Int, hist: Seq(Int), out: Int }, Int) => Int);
*)
mc_delay_lin_small_mc_delay_mc_delay_D_tapOut(mc_delay_lin_small_mc_delay_mc_delay_D_s_1098,
mc_delay_lin_small_mc_delay_mc_delay_D_t_1098) ==
  mc_delay_lin_small_mc_delay_mc_delay_D_s_1098["hist"][
    ((Len(mc_delay_lin_small_mc_delay_mc_delay_D_s_1098["hist"]) - 1)
      - mc_delay_lin_small_mc_delay_mc_delay_D_t_1098
      + 1)
  ]

(*
  @type: (() => Int);
*)
mc_delay_lin_small_mc_delay_MAXCAP == 2

(*
  @type: (() => Bool);
*)
mc_delay_lin_small_mc_delay_REORDER == TRUE

(*
  @type: (({ cap: Int, delay: Int, hist: Seq(Int), out: Int }, Int, Int) => { cap: Int, delay: Int, hist: Seq(Int), out: Int });
*)
mc_delay_lin_small_mc_delay_mc_delay_D_tapIn(mc_delay_lin_small_mc_delay_mc_delay_D_s_1288,
mc_delay_lin_small_mc_delay_mc_delay_D_t_1288, mc_delay_lin_small_mc_delay_mc_delay_D_v_1288) ==
  [
    mc_delay_lin_small_mc_delay_mc_delay_D_s_1288 EXCEPT
      !["hist"] =
        [
          mc_delay_lin_small_mc_delay_mc_delay_D_s_1288["hist"] EXCEPT
            ![(Len(mc_delay_lin_small_mc_delay_mc_delay_D_s_1288["hist"]) - 1)
              - mc_delay_lin_small_mc_delay_mc_delay_D_t_1288
              + 1] =
              mc_delay_lin_small_mc_delay_mc_delay_D_v_1288
        ]
  ]

(*
  @type: (() => Int);
*)
mc_delay_lin_small_mc_delay_MAXV == 2

(*
  @type: (({ alpha: Int, cache: Int, delay: Int, mem: Seq(Int), out: Int, r: Int, stale: Bool, w: Int }, Int) => { alpha: Int, cache: Int, delay: Int, mem: Seq(Int), out: Int, r: Int, stale: Bool, w: Int });
*)
mc_delay_lin_small_mc_delay_ringSetDelay(mc_delay_lin_small_mc_delay_g_122, mc_delay_lin_small_mc_delay_d_122) ==
  LET (*
    @type: (() => Int);
  *)
  mc_delay_lin_small_mc_delay_lim ==
    (mc_delay_lin_small_mc_delay_len(mc_delay_lin_small_mc_delay_g_122) - 1)
      * mc_delay_lin_small_mc_delay_FDEN
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_delay_lin_small_mc_delay_dt ==
    IF mc_delay_lin_small_mc_delay_d_122 > mc_delay_lin_small_mc_delay_lim
    THEN mc_delay_lin_small_mc_delay_lim
    ELSE IF mc_delay_lin_small_mc_delay_d_122 < 0
    THEN 0
    ELSE mc_delay_lin_small_mc_delay_d_122
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_delay_lin_small_mc_delay_pos0 ==
    mc_delay_lin_small_mc_delay_g_122["w"] * mc_delay_lin_small_mc_delay_FDEN
      - mc_delay_lin_small_mc_delay_dt
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_delay_lin_small_mc_delay_pos ==
    IF mc_delay_lin_small_mc_delay_pos0 < 0
    THEN mc_delay_lin_small_mc_delay_pos0
      + mc_delay_lin_small_mc_delay_len(mc_delay_lin_small_mc_delay_g_122)
        * mc_delay_lin_small_mc_delay_FDEN
    ELSE mc_delay_lin_small_mc_delay_pos0
  IN
  [
    [
      [
        [
          mc_delay_lin_small_mc_delay_g_122 EXCEPT
            !["delay"] = mc_delay_lin_small_mc_delay_dt
        ] EXCEPT
          !["r"] =
            mc_delay_lin_small_mc_delay_pos
              \div mc_delay_lin_small_mc_delay_FDEN
      ] EXCEPT
        !["alpha"] =
          mc_delay_lin_small_mc_delay_pos % mc_delay_lin_small_mc_delay_FDEN
    ] EXCEPT
      !["stale"] =
        IF mc_delay_lin_small_mc_delay_INVALIDATE
        THEN TRUE
        ELSE mc_delay_lin_small_mc_delay_g_122["stale"]
  ]

(*
  @type: (() => Int);
*)
mc_delay_lin_small_mc_delay_mc_delay_D_FDEN == mc_delay_lin_small_mc_delay_FDEN

(*
  @type: ((Str, Int, Int, { alpha: Int, cache: Int, delay: Int, mem: Seq(Int), out: Int, r: Int, stale: Bool, w: Int }, { cap: Int, delay: Int, hist: Seq(Int), out: Int }) => Bool);
*)
mc_delay_lin_small_mc_delay_call(mc_delay_lin_small_mc_delay_op_458, mc_delay_lin_small_mc_delay_a_458,
mc_delay_lin_small_mc_delay_b_458, mc_delay_lin_small_mc_delay_g_458, mc_delay_lin_small_mc_delay_s_458) ==
  mc_delay_lin_small_mc_delay_ring' := mc_delay_lin_small_mc_delay_g_458
    /\ mc_delay_lin_small_mc_delay_line'
      := (mc_delay_lin_small_mc_delay_mc_delay_D_trim(mc_delay_lin_small_mc_delay_s_458))
    /\ mc_delay_lin_small_mc_delay_last'
      := [op |-> mc_delay_lin_small_mc_delay_op_458,
        a |-> mc_delay_lin_small_mc_delay_a_458,
        b |-> mc_delay_lin_small_mc_delay_b_458]

(*
  @type: (({ alpha: Int, cache: Int, delay: Int, mem: Seq(Int), out: Int, r: Int, stale: Bool, w: Int }) => Int);
*)
mc_delay_lin_small_mc_delay_interp(mc_delay_lin_small_mc_delay_g_188) ==
  ((mc_delay_lin_small_mc_delay_FDEN
    - mc_delay_lin_small_mc_delay_g_188["alpha"])
    * mc_delay_lin_small_mc_delay_g_188["mem"][
      (mc_delay_lin_small_mc_delay_g_188["r"] + 1)
    ]
    + mc_delay_lin_small_mc_delay_g_188["alpha"]
      * mc_delay_lin_small_mc_delay_g_188["mem"][
        (((mc_delay_lin_small_mc_delay_g_188["r"] + 1)
          % mc_delay_lin_small_mc_delay_len(mc_delay_lin_small_mc_delay_g_188))
          + 1)
      ])
    \div mc_delay_lin_small_mc_delay_FDEN

(*
  @type: (({ cap: Int, delay: Int, hist: Seq(Int), out: Int }, Int) => { cap: Int, delay: Int, hist: Seq(Int), out: Int });
*)
mc_delay_lin_small_mc_delay_mc_delay_D_setMaxDelay(mc_delay_lin_small_mc_delay_mc_delay_D_s_1263,
mc_delay_lin_small_mc_delay_mc_delay_D_m_1263) ==
  IF mc_delay_lin_small_mc_delay_mc_delay_D_m_1263
    <= mc_delay_lin_small_mc_delay_mc_delay_D_s_1263["cap"]
  THEN mc_delay_lin_small_mc_delay_mc_delay_D_s_1263
  ELSE [
    [
      mc_delay_lin_small_mc_delay_mc_delay_D_s_1263 EXCEPT
        !["cap"] = mc_delay_lin_small_mc_delay_mc_delay_D_m_1263
    ] EXCEPT
      !["hist"] =
        mc_delay_lin_small_mc_delay_mc_delay_D_zeros((mc_delay_lin_small_mc_delay_mc_delay_D_m_1263
          - mc_delay_lin_small_mc_delay_mc_delay_D_s_1263["cap"]))
          \o SubSeq(mc_delay_lin_small_mc_delay_mc_delay_D_s_1263["hist"], ((Len(mc_delay_lin_small_mc_delay_mc_delay_D_s_1263[
            "hist"
          ])
            - mc_delay_lin_small_mc_delay_mc_delay_D_s_1263["cap"])
            - 1
            + 1), (Len(mc_delay_lin_small_mc_delay_mc_delay_D_s_1263["hist"])))
  ]

(*
  @type: (({ alpha: Int, cache: Int, delay: Int, mem: Seq(Int), out: Int, r: Int, stale: Bool, w: Int }) => { alpha: Int, cache: Int, delay: Int, mem: Seq(Int), out: Int, r: Int, stale: Bool, w: Int });
*)
mc_delay_lin_small_mc_delay_ringClear(mc_delay_lin_small_mc_delay_g_349) ==
  [
    [
      [
        mc_delay_lin_small_mc_delay_g_349 EXCEPT
          !["mem"] =
            mc_delay_lin_small_mc_delay_mc_delay_D_zeros((mc_delay_lin_small_mc_delay_len(mc_delay_lin_small_mc_delay_g_349)))
      ] EXCEPT
        !["out"] = 0
    ] EXCEPT
      !["stale"] =
        IF mc_delay_lin_small_mc_delay_INVALIDATE
        THEN TRUE
        ELSE mc_delay_lin_small_mc_delay_g_349["stale"]
  ]

(*
  @type: (({ cap: Int, delay: Int, hist: Seq(Int), out: Int }) => { cap: Int, delay: Int, hist: Seq(Int), out: Int });
*)
mc_delay_lin_small_mc_delay_mc_delay_D_clear(mc_delay_lin_small_mc_delay_mc_delay_D_s_1203) ==
  [
    [
      mc_delay_lin_small_mc_delay_mc_delay_D_s_1203 EXCEPT
        !["hist"] =
          mc_delay_lin_small_mc_delay_mc_delay_D_zeros((mc_delay_lin_small_mc_delay_mc_delay_D_s_1203[
            "cap"
          ]
            + 1))
    ] EXCEPT
      !["out"] = 0
  ]

(*
  @type: (({ alpha: Int, cache: Int, delay: Int, mem: Seq(Int), out: Int, r: Int, stale: Bool, w: Int }, Int) => Int);
*)
mc_delay_lin_small_mc_delay_tapIndex(mc_delay_lin_small_mc_delay_g_371, mc_delay_lin_small_mc_delay_t_371) ==
  ((mc_delay_lin_small_mc_delay_g_371["w"] - mc_delay_lin_small_mc_delay_t_371)
    - 1
    + 2 * mc_delay_lin_small_mc_delay_len(mc_delay_lin_small_mc_delay_g_371))
    % mc_delay_lin_small_mc_delay_len(mc_delay_lin_small_mc_delay_g_371)

(*
  @type: (({ cap: Int, delay: Int, hist: Seq(Int), out: Int }, Int, Int) => { cap: Int, delay: Int, hist: Seq(Int), out: Int });
*)
mc_delay_lin_small_mc_delay_mc_delay_D_addTo(mc_delay_lin_small_mc_delay_mc_delay_D_s_1305,
mc_delay_lin_small_mc_delay_mc_delay_D_t_1305, mc_delay_lin_small_mc_delay_mc_delay_D_v_1305) ==
  mc_delay_lin_small_mc_delay_mc_delay_D_tapIn(mc_delay_lin_small_mc_delay_mc_delay_D_s_1305,
  mc_delay_lin_small_mc_delay_mc_delay_D_t_1305, (mc_delay_lin_small_mc_delay_mc_delay_D_tapOut(mc_delay_lin_small_mc_delay_mc_delay_D_s_1305,
  mc_delay_lin_small_mc_delay_mc_delay_D_t_1305)
    + mc_delay_lin_small_mc_delay_mc_delay_D_v_1305))

(*
  @type: (() => Bool);
*)
mc_delay_lin_small_mc_delay_outOk ==
  mc_delay_lin_small_mc_delay_ring["out"]
    = mc_delay_lin_small_mc_delay_line["out"]

(*
  @type: (() => Bool);
*)
mc_delay_lin_small_mc_delay_settingsOk ==
  mc_delay_lin_small_mc_delay_ring["delay"]
      = mc_delay_lin_small_mc_delay_line["delay"]
    /\ mc_delay_lin_small_mc_delay_len(mc_delay_lin_small_mc_delay_ring) - 1
      = mc_delay_lin_small_mc_delay_line["cap"]
    /\ mc_delay_lin_small_mc_delay_line["delay"] >= 0
    /\ mc_delay_lin_small_mc_delay_line["delay"]
      <= mc_delay_lin_small_mc_delay_line["cap"]
        * mc_delay_lin_small_mc_delay_FDEN
    /\ (mc_delay_lin_small_mc_delay_line["delay"] = 0
      \/ mc_delay_lin_small_mc_delay_line["delay"]
        <= mc_delay_lin_small_mc_delay_ring["delay"])

(*
  @type: (() => Bool);
*)
mc_delay_lin_small_mc_delay_pointersOk ==
  (((mc_delay_lin_small_mc_delay_ring["w"] * mc_delay_lin_small_mc_delay_FDEN
    - mc_delay_lin_small_mc_delay_ring["r"] * mc_delay_lin_small_mc_delay_FDEN)
    - mc_delay_lin_small_mc_delay_ring["alpha"])
    - mc_delay_lin_small_mc_delay_ring["delay"])
    % mc_delay_lin_small_mc_delay_len(mc_delay_lin_small_mc_delay_ring)
      * mc_delay_lin_small_mc_delay_FDEN
    = 0

(*
  @type: ((Int, Int) => { alpha: Int, cache: Int, delay: Int, mem: Seq(Int), out: Int, r: Int, stale: Bool, w: Int });
*)
mc_delay_lin_small_mc_delay_ringNew(mc_delay_lin_small_mc_delay_d_151, mc_delay_lin_small_mc_delay_cap_151) ==
  mc_delay_lin_small_mc_delay_ringSetDelay([mem |->
      mc_delay_lin_small_mc_delay_mc_delay_D_zeros((mc_delay_lin_small_mc_delay_cap_151
        + 1)),
    w |-> 0,
    r |-> 0,
    alpha |-> 0,
    delay |-> 0,
    out |-> 0,
    stale |-> TRUE,
    cache |-> 0], mc_delay_lin_small_mc_delay_d_151)

(*
  @type: ((Int, Int) => Int);
*)
mc_delay_lin_small_mc_delay_mc_delay_D_clipDelay(mc_delay_lin_small_mc_delay_mc_delay_D_d_1058,
mc_delay_lin_small_mc_delay_mc_delay_D_cap_1058) ==
  IF mc_delay_lin_small_mc_delay_mc_delay_D_d_1058 < 0
  THEN 0
  ELSE IF mc_delay_lin_small_mc_delay_mc_delay_D_d_1058
    > mc_delay_lin_small_mc_delay_mc_delay_D_cap_1058
      * mc_delay_lin_small_mc_delay_mc_delay_D_FDEN
  THEN mc_delay_lin_small_mc_delay_mc_delay_D_cap_1058
    * mc_delay_lin_small_mc_delay_mc_delay_D_FDEN
  ELSE mc_delay_lin_small_mc_delay_mc_delay_D_d_1058

(*
  @type: (({ alpha: Int, cache: Int, delay: Int, mem: Seq(Int), out: Int, r: Int, stale: Bool, w: Int }) => { alpha: Int, cache: Int, delay: Int, mem: Seq(Int), out: Int, r: Int, stale: Bool, w: Int });
*)
mc_delay_lin_small_mc_delay_ringPeek(mc_delay_lin_small_mc_delay_g_206) ==
  IF mc_delay_lin_small_mc_delay_g_206["stale"]
  THEN [
    [
      mc_delay_lin_small_mc_delay_g_206 EXCEPT
        !["cache"] =
          mc_delay_lin_small_mc_delay_interp(mc_delay_lin_small_mc_delay_g_206)
    ] EXCEPT
      !["stale"] = FALSE
  ]
  ELSE mc_delay_lin_small_mc_delay_g_206

(*
  @type: (({ cap: Int, delay: Int, hist: Seq(Int), out: Int }, Int) => Int);
*)
mc_delay_lin_small_mc_delay_mc_delay_D_readAt(mc_delay_lin_small_mc_delay_mc_delay_D_s_1139,
mc_delay_lin_small_mc_delay_mc_delay_D_d_1139) ==
  LET (*
    @type: (() => Int);
  *)
  mc_delay_lin_small_mc_delay_mc_delay_D_k ==
    mc_delay_lin_small_mc_delay_mc_delay_D_d_1139
      \div mc_delay_lin_small_mc_delay_mc_delay_D_FDEN
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_delay_lin_small_mc_delay_mc_delay_D_f ==
    mc_delay_lin_small_mc_delay_mc_delay_D_d_1139
      % mc_delay_lin_small_mc_delay_mc_delay_D_FDEN
  IN
  IF mc_delay_lin_small_mc_delay_mc_delay_D_f = 0
  THEN mc_delay_lin_small_mc_delay_mc_delay_D_tapOut(mc_delay_lin_small_mc_delay_mc_delay_D_s_1139,
  (mc_delay_lin_small_mc_delay_mc_delay_D_k))
  ELSE ((mc_delay_lin_small_mc_delay_mc_delay_D_FDEN
    - mc_delay_lin_small_mc_delay_mc_delay_D_f)
    * mc_delay_lin_small_mc_delay_mc_delay_D_tapOut(mc_delay_lin_small_mc_delay_mc_delay_D_s_1139,
    (mc_delay_lin_small_mc_delay_mc_delay_D_k))
    + mc_delay_lin_small_mc_delay_mc_delay_D_f
      * mc_delay_lin_small_mc_delay_mc_delay_D_tapOut(mc_delay_lin_small_mc_delay_mc_delay_D_s_1139,
      (mc_delay_lin_small_mc_delay_mc_delay_D_k + 1)))
    \div mc_delay_lin_small_mc_delay_mc_delay_D_FDEN

(*
  @type: (({ alpha: Int, cache: Int, delay: Int, mem: Seq(Int), out: Int, r: Int, stale: Bool, w: Int }, Int) => { alpha: Int, cache: Int, delay: Int, mem: Seq(Int), out: Int, r: Int, stale: Bool, w: Int });
*)
mc_delay_lin_small_mc_delay_ringGrow(mc_delay_lin_small_mc_delay_g_327, mc_delay_lin_small_mc_delay_m_327) ==
  IF mc_delay_lin_small_mc_delay_m_327
    < mc_delay_lin_small_mc_delay_len(mc_delay_lin_small_mc_delay_g_327)
  THEN mc_delay_lin_small_mc_delay_g_327
  ELSE LET (*
    @type: (() => Int);
  *)
  mc_delay_lin_small_mc_delay_added ==
    (mc_delay_lin_small_mc_delay_m_327 + 1)
      - mc_delay_lin_small_mc_delay_len(mc_delay_lin_small_mc_delay_g_327)
  IN
  IF mc_delay_lin_small_mc_delay_REORDER
  THEN mc_delay_lin_small_mc_delay_ringSetDelay([
    mc_delay_lin_small_mc_delay_g_327 EXCEPT
      !["mem"] =
        (SubSeq(mc_delay_lin_small_mc_delay_g_327["mem"], (0 + 1), mc_delay_lin_small_mc_delay_g_327[
          "w"
        ])
          \o mc_delay_lin_small_mc_delay_mc_delay_D_zeros((mc_delay_lin_small_mc_delay_added)))
          \o SubSeq(mc_delay_lin_small_mc_delay_g_327["mem"], (mc_delay_lin_small_mc_delay_g_327[
            "w"
          ]
            + 1), (mc_delay_lin_small_mc_delay_len(mc_delay_lin_small_mc_delay_g_327)))
  ], mc_delay_lin_small_mc_delay_g_327["delay"])
  ELSE [
    mc_delay_lin_small_mc_delay_g_327 EXCEPT
      !["mem"] =
        mc_delay_lin_small_mc_delay_g_327["mem"]
          \o mc_delay_lin_small_mc_delay_mc_delay_D_zeros((mc_delay_lin_small_mc_delay_added))
  ]

(*
  @type: (() => Bool);
*)
mc_delay_lin_small_mc_delay_doClear ==
  mc_delay_lin_small_mc_delay_call("clear", 0, 0, (mc_delay_lin_small_mc_delay_ringClear(mc_delay_lin_small_mc_delay_ring)),
  (mc_delay_lin_small_mc_delay_mc_delay_D_clear(mc_delay_lin_small_mc_delay_line)))

(*
  @type: (({ alpha: Int, cache: Int, delay: Int, mem: Seq(Int), out: Int, r: Int, stale: Bool, w: Int }, Int, Int) => { alpha: Int, cache: Int, delay: Int, mem: Seq(Int), out: Int, r: Int, stale: Bool, w: Int });
*)
mc_delay_lin_small_mc_delay_ringTapIn(mc_delay_lin_small_mc_delay_g_399, mc_delay_lin_small_mc_delay_t_399,
mc_delay_lin_small_mc_delay_v_399) ==
  [
    [
      mc_delay_lin_small_mc_delay_g_399 EXCEPT
        !["mem"] =
          [
            mc_delay_lin_small_mc_delay_g_399["mem"] EXCEPT
              ![mc_delay_lin_small_mc_delay_tapIndex(mc_delay_lin_small_mc_delay_g_399,
              mc_delay_lin_small_mc_delay_t_399)
                + 1] =
                mc_delay_lin_small_mc_delay_v_399
          ]
    ] EXCEPT
      !["stale"] =
        IF mc_delay_lin_small_mc_delay_INVALIDATE
        THEN TRUE
        ELSE mc_delay_lin_small_mc_delay_g_399["stale"]
  ]

(*
  @type: (() => Bool);
*)
mc_delay_lin_small_mc_delay_storeOk ==
  \A mc_delay_lin_small_mc_delay_t_677 \in 0
    .. mc_delay_lin_small_mc_delay_line["cap"]:
    mc_delay_lin_small_mc_delay_ring["mem"][
      (mc_delay_lin_small_mc_delay_tapIndex(mc_delay_lin_small_mc_delay_ring, mc_delay_lin_small_mc_delay_t_677)
        + 1)
    ]
      = mc_delay_lin_small_mc_delay_mc_delay_D_tapOut(mc_delay_lin_small_mc_delay_line,
      mc_delay_lin_small_mc_delay_t_677)

(*
  @type: (({ cap: Int, delay: Int, hist: Seq(Int), out: Int }) => Bool);
*)
mc_delay_lin_small_mc_delay_mc_delay_D_predictable(mc_delay_lin_small_mc_delay_mc_delay_D_s_1174) ==
  mc_delay_lin_small_mc_delay_mc_delay_D_s_1174["delay"]
    >= mc_delay_lin_small_mc_delay_mc_delay_D_FDEN

(*
  @type: ((Int, Int) => { cap: Int, delay: Int, hist: Seq(Int), out: Int });
*)
mc_delay_lin_small_mc_delay_mc_delay_D_newLine(mc_delay_lin_small_mc_delay_mc_delay_D_d_1079,
mc_delay_lin_small_mc_delay_mc_delay_D_cap_1079) ==
  [hist |->
      mc_delay_lin_small_mc_delay_mc_delay_D_zeros((mc_delay_lin_small_mc_delay_mc_delay_D_cap_1079
        + 1)),
    cap |-> mc_delay_lin_small_mc_delay_mc_delay_D_cap_1079,
    delay |->
      mc_delay_lin_small_mc_delay_mc_delay_D_clipDelay(mc_delay_lin_small_mc_delay_mc_delay_D_d_1079,
      mc_delay_lin_small_mc_delay_mc_delay_D_cap_1079),
    out |-> 0]

(*
  @type: (({ alpha: Int, cache: Int, delay: Int, mem: Seq(Int), out: Int, r: Int, stale: Bool, w: Int }, Int) => { alpha: Int, cache: Int, delay: Int, mem: Seq(Int), out: Int, r: Int, stale: Bool, w: Int });
*)
mc_delay_lin_small_mc_delay_ringProcess(mc_delay_lin_small_mc_delay_g_267, mc_delay_lin_small_mc_delay_x_267) ==
  LET (*
    @type: (() => { alpha: Int, cache: Int, delay: Int, mem: Seq(Int), out: Int, r: Int, stale: Bool, w: Int });
  *)
  mc_delay_lin_small_mc_delay_g1 ==
    [
      [
        [
          mc_delay_lin_small_mc_delay_g_267 EXCEPT
            !["mem"] =
              [
                mc_delay_lin_small_mc_delay_g_267["mem"] EXCEPT
                  ![mc_delay_lin_small_mc_delay_g_267["w"] + 1] =
                    mc_delay_lin_small_mc_delay_x_267
              ]
        ] EXCEPT
          !["w"] =
            (mc_delay_lin_small_mc_delay_g_267["w"] + 1)
              % mc_delay_lin_small_mc_delay_len(mc_delay_lin_small_mc_delay_g_267)
      ] EXCEPT
        !["stale"] =
          IF mc_delay_lin_small_mc_delay_INVALIDATE
          THEN TRUE
          ELSE mc_delay_lin_small_mc_delay_g_267["stale"]
    ]
  IN
  LET (*
    @type: (() => { alpha: Int, cache: Int, delay: Int, mem: Seq(Int), out: Int, r: Int, stale: Bool, w: Int });
  *)
  mc_delay_lin_small_mc_delay_g2 ==
    mc_delay_lin_small_mc_delay_ringPeek((mc_delay_lin_small_mc_delay_g1))
  IN
  [
    [
      [
        (mc_delay_lin_small_mc_delay_g2) EXCEPT
          !["out"] = (mc_delay_lin_small_mc_delay_g2)["cache"]
      ] EXCEPT
        !["stale"] = TRUE
    ] EXCEPT
      !["r"] =
        ((mc_delay_lin_small_mc_delay_g2)["r"] + 1)
          % mc_delay_lin_small_mc_delay_len((mc_delay_lin_small_mc_delay_g2))
  ]

(*
  @type: (({ cap: Int, delay: Int, hist: Seq(Int), out: Int }, Int) => { cap: Int, delay: Int, hist: Seq(Int), out: Int });
*)
mc_delay_lin_small_mc_delay_mc_delay_D_process(mc_delay_lin_small_mc_delay_mc_delay_D_s_1164,
mc_delay_lin_small_mc_delay_mc_delay_D_x_1164) ==
  LET (*
    @type: (() => { cap: Int, delay: Int, hist: Seq(Int), out: Int });
  *)
  mc_delay_lin_small_mc_delay_mc_delay_D_fed ==
    [
      mc_delay_lin_small_mc_delay_mc_delay_D_s_1164 EXCEPT
        !["hist"] =
          Append(mc_delay_lin_small_mc_delay_mc_delay_D_s_1164["hist"], mc_delay_lin_small_mc_delay_mc_delay_D_x_1164)
    ]
  IN
  [
    (mc_delay_lin_small_mc_delay_mc_delay_D_fed) EXCEPT
      !["out"] =
        mc_delay_lin_small_mc_delay_mc_delay_D_readAt((mc_delay_lin_small_mc_delay_mc_delay_D_fed),
        mc_delay_lin_small_mc_delay_mc_delay_D_s_1164["delay"])
  ]

(*
  @type: (({ cap: Int, delay: Int, hist: Seq(Int), out: Int }, Int) => { cap: Int, delay: Int, hist: Seq(Int), out: Int });
*)
mc_delay_lin_small_mc_delay_mc_delay_D_setDelay(mc_delay_lin_small_mc_delay_mc_delay_D_s_1218,
mc_delay_lin_small_mc_delay_mc_delay_D_d_1218) ==
  [
    mc_delay_lin_small_mc_delay_mc_delay_D_s_1218 EXCEPT
      !["delay"] =
        mc_delay_lin_small_mc_delay_mc_delay_D_clipDelay(mc_delay_lin_small_mc_delay_mc_delay_D_d_1218,
        mc_delay_lin_small_mc_delay_mc_delay_D_s_1218["cap"])
  ]

(*
  @type: (() => Bool);
*)
mc_delay_lin_small_mc_delay_doSetMaxDelay ==
  \E mc_delay_lin_small_mc_delay_m \in mc_delay_lin_small_mc_delay_CAPS:
    mc_delay_lin_small_mc_delay_m <= mc_delay_lin_small_mc_delay_MAXCAP
      /\ mc_delay_lin_small_mc_delay_call("set_max_delay", mc_delay_lin_small_mc_delay_m,
      0, (mc_delay_lin_small_mc_delay_ringGrow(mc_delay_lin_small_mc_delay_ring,
      mc_delay_lin_small_mc_delay_m)), (mc_delay_lin_small_mc_delay_mc_delay_D_setMaxDelay(mc_delay_lin_small_mc_delay_line,
      mc_delay_lin_small_mc_delay_m)))

(*
  @type: (() => Bool);
*)
mc_delay_lin_small_mc_delay_doNextOut ==
  mc_delay_lin_small_mc_delay_call("next_out", 0, 0, (mc_delay_lin_small_mc_delay_ringPeek(mc_delay_lin_small_mc_delay_ring)),
  mc_delay_lin_small_mc_delay_line)

(*
  @type: (() => Bool);
*)
mc_delay_lin_small_mc_delay_doTapIn ==
  \E mc_delay_lin_small_mc_delay_t \in 0 .. mc_delay_lin_small_mc_delay_MAXCAP:
    \E mc_delay_lin_small_mc_delay_v \in mc_delay_lin_small_mc_delay_VALS:
      mc_delay_lin_small_mc_delay_t <= mc_delay_lin_small_mc_delay_line["cap"]
        /\ mc_delay_lin_small_mc_delay_call("tap_in", mc_delay_lin_small_mc_delay_t,
        mc_delay_lin_small_mc_delay_v, (mc_delay_lin_small_mc_delay_ringTapIn(mc_delay_lin_small_mc_delay_ring,
        mc_delay_lin_small_mc_delay_t, mc_delay_lin_small_mc_delay_v)), (mc_delay_lin_small_mc_delay_mc_delay_D_tapIn(mc_delay_lin_small_mc_delay_line,
        mc_delay_lin_small_mc_delay_t, mc_delay_lin_small_mc_delay_v)))

(*
  @type: (() => Bool);
*)
mc_delay_lin_small_mc_delay_doAddTo ==
  \E mc_delay_lin_small_mc_delay_t \in 0 .. mc_delay_lin_small_mc_delay_MAXCAP:
    \E mc_delay_lin_small_mc_delay_v \in mc_delay_lin_small_mc_delay_VALS:
      mc_delay_lin_small_mc_delay_t <= mc_delay_lin_small_mc_delay_line["cap"]
        /\ mc_delay_lin_small_mc_delay_mc_delay_D_tapOut(mc_delay_lin_small_mc_delay_line,
        mc_delay_lin_small_mc_delay_t)
          + mc_delay_lin_small_mc_delay_v
          <= mc_delay_lin_small_mc_delay_MAXV
        /\ mc_delay_lin_small_mc_delay_call("add_to", mc_delay_lin_small_mc_delay_t,
        mc_delay_lin_small_mc_delay_v, (mc_delay_lin_small_mc_delay_ringTapIn(mc_delay_lin_small_mc_delay_ring,
        mc_delay_lin_small_mc_delay_t, (mc_delay_lin_small_mc_delay_ring["mem"][
          (mc_delay_lin_small_mc_delay_tapIndex(mc_delay_lin_small_mc_delay_ring,
          mc_delay_lin_small_mc_delay_t)
            + 1)
        ]
          + mc_delay_lin_small_mc_delay_v))), (mc_delay_lin_small_mc_delay_mc_delay_D_addTo(mc_delay_lin_small_mc_delay_line,
        mc_delay_lin_small_mc_delay_t, mc_delay_lin_small_mc_delay_v)))

(*
  @type: (({ cap: Int, delay: Int, hist: Seq(Int), out: Int }) => Int);
*)
mc_delay_lin_small_mc_delay_mc_delay_D_nextOut(mc_delay_lin_small_mc_delay_mc_delay_D_s_1186) ==
  mc_delay_lin_small_mc_delay_mc_delay_D_readAt(mc_delay_lin_small_mc_delay_mc_delay_D_s_1186,
  (mc_delay_lin_small_mc_delay_mc_delay_D_s_1186["delay"]
    - mc_delay_lin_small_mc_delay_mc_delay_D_FDEN))

(*
  @type: (() => Bool);
*)
mc_delay_lin_small_mc_delay_init ==
  \E mc_delay_lin_small_mc_delay_cap \in mc_delay_lin_small_mc_delay_CAPS:
    \E mc_delay_lin_small_mc_delay_d \in mc_delay_lin_small_mc_delay_DELAYS:
      mc_delay_lin_small_mc_delay_ring
          = mc_delay_lin_small_mc_delay_ringNew(mc_delay_lin_small_mc_delay_d, mc_delay_lin_small_mc_delay_cap)
        /\ mc_delay_lin_small_mc_delay_line
          = mc_delay_lin_small_mc_delay_mc_delay_D_newLine(mc_delay_lin_small_mc_delay_d,
          mc_delay_lin_small_mc_delay_cap)
        /\ mc_delay_lin_small_mc_delay_last
          = [op |-> "new",
            a |-> mc_delay_lin_small_mc_delay_d,
            b |-> mc_delay_lin_small_mc_delay_cap]

(*
  @type: (() => Bool);
*)
mc_delay_lin_small_mc_delay_doProcess ==
  \E mc_delay_lin_small_mc_delay_x \in mc_delay_lin_small_mc_delay_VALS:
    mc_delay_lin_small_mc_delay_call("process", mc_delay_lin_small_mc_delay_x, 0,
    (mc_delay_lin_small_mc_delay_ringProcess(mc_delay_lin_small_mc_delay_ring, mc_delay_lin_small_mc_delay_x)),
    (mc_delay_lin_small_mc_delay_mc_delay_D_process(mc_delay_lin_small_mc_delay_line,
    mc_delay_lin_small_mc_delay_x)))

(*
  @type: (() => Bool);
*)
mc_delay_lin_small_mc_delay_doSetDelay ==
  \E mc_delay_lin_small_mc_delay_d \in mc_delay_lin_small_mc_delay_DELAYS:
    mc_delay_lin_small_mc_delay_call("set_delay", mc_delay_lin_small_mc_delay_d,
    0, (mc_delay_lin_small_mc_delay_ringSetDelay(mc_delay_lin_small_mc_delay_ring,
    mc_delay_lin_small_mc_delay_d)), (mc_delay_lin_small_mc_delay_mc_delay_D_setDelay(mc_delay_lin_small_mc_delay_line,
    mc_delay_lin_small_mc_delay_d)))

(*
  @type: (() => Bool);
*)
mc_delay_lin_small_mc_delay_peekOk ==
  \A mc_delay_lin_small_mc_delay_x_714 \in mc_delay_lin_small_mc_delay_VALS:
    (mc_delay_lin_small_mc_delay_ringProcess((mc_delay_lin_small_mc_delay_ringPeek(mc_delay_lin_small_mc_delay_ring)),
      mc_delay_lin_small_mc_delay_x_714))[
        "out"
      ]
        = (mc_delay_lin_small_mc_delay_ringProcess(mc_delay_lin_small_mc_delay_ring,
        mc_delay_lin_small_mc_delay_x_714))[
          "out"
        ]
      /\ (mc_delay_lin_small_mc_delay_mc_delay_D_predictable(mc_delay_lin_small_mc_delay_line)
        => (mc_delay_lin_small_mc_delay_ringPeek(mc_delay_lin_small_mc_delay_ring))[
            "cache"
          ]
            = mc_delay_lin_small_mc_delay_mc_delay_D_nextOut(mc_delay_lin_small_mc_delay_line)
          /\ (mc_delay_lin_small_mc_delay_ringProcess(mc_delay_lin_small_mc_delay_ring,
          mc_delay_lin_small_mc_delay_x_714))[
            "out"
          ]
            = mc_delay_lin_small_mc_delay_mc_delay_D_nextOut(mc_delay_lin_small_mc_delay_line))

(*
  @type: (() => Bool);
*)
mc_delay_lin_small_mc_delay_clearOk ==
  mc_delay_lin_small_mc_delay_mc_delay_D_clear(mc_delay_lin_small_mc_delay_line)
      = mc_delay_lin_small_mc_delay_mc_delay_D_newLine(mc_delay_lin_small_mc_delay_line[
        "delay"
      ], mc_delay_lin_small_mc_delay_line["cap"])
    /\ (mc_delay_lin_small_mc_delay_ringProcess((mc_delay_lin_small_mc_delay_ringClear(mc_delay_lin_small_mc_delay_ring)),
    (1 * mc_delay_lin_small_mc_delay_FDEN)))[
      "out"
    ]
      = (mc_delay_lin_small_mc_delay_mc_delay_D_process((mc_delay_lin_small_mc_delay_mc_delay_D_newLine(mc_delay_lin_small_mc_delay_line[
        "delay"
      ], mc_delay_lin_small_mc_delay_line["cap"])), (1
        * mc_delay_lin_small_mc_delay_FDEN)))[
        "out"
      ]

(*
  @type: (() => Bool);
*)
q_init == mc_delay_lin_small_mc_delay_init

(*
  @type: (() => Bool);
*)
mc_delay_lin_small_mc_delay_step ==
  mc_delay_lin_small_mc_delay_doProcess
    \/ mc_delay_lin_small_mc_delay_doSetDelay
    \/ mc_delay_lin_small_mc_delay_doSetMaxDelay
    \/ mc_delay_lin_small_mc_delay_doClear
    \/ mc_delay_lin_small_mc_delay_doNextOut
    \/ mc_delay_lin_small_mc_delay_doTapIn
    \/ mc_delay_lin_small_mc_delay_doAddTo

(*
  @type: (() => Bool);
*)
mc_delay_lin_small_mc_delay_allOk ==
  mc_delay_lin_small_mc_delay_outOk
    /\ mc_delay_lin_small_mc_delay_settingsOk
    /\ mc_delay_lin_small_mc_delay_storeOk
    /\ mc_delay_lin_small_mc_delay_peekOk
    /\ mc_delay_lin_small_mc_delay_pointersOk
    /\ mc_delay_lin_small_mc_delay_clearOk

(*
  @type: (() => Bool);
*)
q_step == mc_delay_lin_small_mc_delay_step

(*
  @type: (() => Bool);
*)
q_inv == mc_delay_lin_small_mc_delay_allOk

================================================================================
