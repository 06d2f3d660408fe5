------------------------------- MODULE MC_C26 -------------------------------
(***************************************************************************)
(* Sessions over a library which compiles a function when it is first      *)
(* called with a signature, and keeps the compiled code.  Compiled code    *)
(* may be reused for another call only if it does not depend on anything   *)
(* that differs between the two.  Every reachable history is a scenario.   *)
(*                                                                         *)
(* Calls of one function: a base, v other values, s another shape,         *)
(* o another option, t base in another form, r an error; z: another        *)
(* function.                                                               *)
(***************************************************************************)
EXTENDS Session, TLC
CONSTANTS Depth, CacheKey
VARIABLES hist, heap, cache, memo, last
vars == <<hist, heap, cache, memo, last>>
Kinds == {"a", "v", "s", "o", "t", "r", "z"}
\* fn, shape, values, option, form
ArgsOf == [k \in Kinds |->
    CASE k = "a" -> [fn |-> "f", n |-> 2, x |-> 1, opt |-> FALSE, form |-> "np", bad |-> FALSE]
      [] k = "v" -> [fn |-> "f", n |-> 2, x |-> 7, opt |-> FALSE, form |-> "np", bad |-> FALSE]
      [] k = "s" -> [fn |-> "f", n |-> 3, x |-> 1, opt |-> FALSE, form |-> "np", bad |-> FALSE]
      [] k = "o" -> [fn |-> "f", n |-> 2, x |-> 1, opt |-> TRUE, form |-> "np", bad |-> FALSE]
      [] k = "t" -> [fn |-> "f", n |-> 2, x |-> 1, opt |-> FALSE, form |-> "jnp", bad |-> FALSE]
      [] k = "r" -> [fn |-> "f", n |-> 2, x |-> 1, opt |-> FALSE, form |-> "np", bad |-> TRUE]
      [] k = "z" -> [fn |-> "g", n |-> 2, x |-> 1, opt |-> FALSE, form |-> "np", bad |-> FALSE]]
\* what the function means
Meaning(a) == IF a.bad THEN "error" ELSE <<a.fn, a.n, a.x * a.n, a.opt>>
Sig(a) == CASE CacheKey = "full" -> <<a.fn, a.n, a.opt, a.form>>
            [] CacheKey = "no_option" -> <<a.fn, a.n, a.form>>
            [] CacheKey = "no_shape" -> <<a.fn, a.opt, a.form>>
\* compiled code specializes everything static
Code(a) == <<a.fn, a.n, a.opt>>
Run(code, a) == IF a.bad THEN "error" ELSE <<code[1], code[2], a.x * code[2], code[3]>>
Entry(a) == IF Sig(a) \in DOMAIN cache THEN cache[Sig(a)] ELSE Code(a)
Init == hist = <<>> /\ heap = ArgsOf /\ cache = <<>> /\ memo = <<>> /\ last = "none"
Call(k) ==
    LET a == heap[k]  ans == Run(Entry(a), a) IN
    /\ Len(hist) < Depth /\ hist' = Append(hist, k)
    \* an error leaves no compiled code behind
    /\ cache' = IF a.bad THEN cache ELSE Learn(cache, Sig(a), Code(a))
    /\ memo' = Learn(memo, k, ans)
    /\ last' = IF Contradicts(memo, k, ans) THEN "contradiction" ELSE "ok"
    /\ UNCHANGED heap
    /\ (Len(hist') = Depth => PrintT(<<"SCEN">> \o hist'))
Spec == Init /\ [][\E k \in Kinds : Call(k)]_vars
NoContradiction == last # "contradiction"
Meant == \A k \in DOMAIN memo : memo[k] = Meaning(ArgsOf[k])
SameForAnyForm == ({"a", "t"} \subseteq DOMAIN memo) => memo["a"] = memo["t"]
Untouched == heap = ArgsOf
=============================================================================
