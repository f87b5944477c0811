------------------------------ MODULE KVSteps -------------------------------
(* A recorded call on a store, explained by the action of its name with the *)
(* recorded arguments and results.                                          *)
EXTENDS KV

KVStep(E) ==
  LET Is(name) == E.op = name IN
  \/ Is("batch") /\ NewBatch(E.b)
  \/ Is("set") /\ Add(E.b, [t |-> "set", k |-> E.k, v |-> E.v])
  \/ Is("del") /\ Del(E.b, E.k)
  \/ Is("merge") /\ Merge(E.b, E.k, E.v)
  \/ Is("ops") /\ AddAll(E.b, E.os)
  \/ Is("odd") /\ Add(E.b, [t |-> E.t, k |-> E.k, v |-> E.v, odd |-> TRUE])
  \/ Is("reset") /\ Reset(E.b)
  \/ Is("exec") /\ Exec(E.b, E.ok)
  \/ Is("foreign") /\ ExecForeign(E.ok)
  \/ Is("cbatch") /\ CloseBatch(E.b)
  \/ Is("reader") /\ OpenReader(E.r, E.ok)
  \/ Is("creader") /\ CloseReader(E.r)
  \/ Is("get") /\ Get(E.r, E.k, E.v, E.h)
  \/ Is("mget") /\ MultiGet(E.r, E.ks, E.ok, E.vs)
  \/ Is("held") /\ Held(E.h, E.v)
  \/ Is("scan") /\ Scan(E.r, E.kv)
  \/ Is("piter") /\ OpenIter(E.i, E.r, PrefixW(E.p))
  \/ Is("riter") /\ OpenIter(E.i, E.r, RangeW(E.s, E.sn, E.e, E.en))
  \/ Is("seek") /\ Seek(E.i, E.k)
  \/ Is("next") /\ Next1(E.i)
  \/ Is("cur") /\ Current(E.i, E.ok, E.k, E.v)
  \/ Is("citer") /\ CloseIter(E.i)
  \/ Is("compact") /\ Compact(E.ok)
  \/ Is("reopen") /\ Reopen(E.ok)

=============================================================================
