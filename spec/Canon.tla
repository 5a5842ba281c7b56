-------------------------------- MODULE Canon -------------------------------
(* C01.  The state is the width of every register.  An operation promises   *)
(* the width of its result; the value itself is left open (any canonical    *)
(* vector of that width), it is the business of the other specifications.   *)
EXTENDS Integers, Sequences, Text
VARIABLE wd                     \* register -> width

(* the width an operation promises, given operand widths *)
Promised(op, wa, wb, n, m, t) ==
    CASE op \in {"add", "sub", "addop", "subop", "mul", "shl", "lshr", "ashr",
                 "and", "or", "xor", "neg", "not"}                -> wa
      [] op = "slice"                                             -> n - m + 1
      [] op = "concat"                                            -> wa + wb
      [] op \in {"zext", "sext"}                                  -> wa + n
      [] op \in {"zero", "ones", "fromu64", "fromi64", "frombytes",
                 "frombui", "frombi", "parse"}                    -> n
      [] op = "frombit"                                           -> TextWidth(t, 1)
      [] op = "fromhex"                                           -> TextWidth(t, 4)
      [] op = "frombool"                                          -> 1
      \* in place: the target keeps its width
      [] op \in {"assign", "setones", "clear", "setbit", "clearbit", "setu64",
                 "seti64", "parsein", "mask"}                     -> wb
      \* copies and reads through stores, arrays, the interner, views
      [] op \in {"clone", "ofref", "slab", "intern", "dense", "sparse",
                 "todense", "serde"}                              -> wa
      [] OTHER -> -1

NewWidth(d, w)  == wd' = [wd EXCEPT ![d] = w]
=============================================================================
