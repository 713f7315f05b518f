(* Program-level model of the C++ operations the translator emits.
   `let` definitions are verified; `val`s are the trusted base of the model. *)
module Cpp
  use int.Int
  use int.EuclideanDivision
  use map.Map
  use vec.Vec
  use vec.Umap

  (* machine integers: conversion to width w *)
  let function u8 (x: int) : int = if 0 <= x <= 255 then x else mod x 256
  let function u16 (x: int) : int = if 0 <= x <= 65535 then x else mod x 65536
  let function u32 (x: int) : int = if 0 <= x <= 4294967295 then x else mod x 4294967296
  let function u64 (x: int) : int = if 0 <= x <= 18446744073709551615 then x else mod x 18446744073709551616
  let function s8 (x: int) : int = if -128 <= x <= 127 then x else mod (x + 128) 256 - 128
  let function s32 (x: int) : int = if -2147483648 <= x <= 2147483647 then x else mod (x + 2147483648) 4294967296 - 2147483648
  let function s64 (x: int) : int = if -9223372036854775808 <= x <= 9223372036854775807 then x else mod (x + 9223372036854775808) 18446744073709551616 - 9223372036854775808
  let chk_s32 (x: int) : int
    requires { [@expl:signed overflow] -2147483648 <= x <= 2147483647 }
    ensures { result = x } = x
  let chk_s64 (x: int) : int
    requires { [@expl:signed overflow] -9223372036854775808 <= x <= 9223372036854775807 }
    ensures { result = x } = x
  let udiv (x y: int) : int
    requires { [@expl:division by zero] y > 0 } requires { x >= 0 }
    ensures { result = div x y } = div x y
  let udivmod (x y: int) : int
    requires { [@expl:division by zero] y > 0 } requires { x >= 0 }
    ensures { result = mod x y } = mod x y
  (* signed division truncates towards zero *)
  function ctdiv (x y: int) : int = if x >= 0 then div x y else - (div (- x) y)
  (* nothing is known about it: provable only where the hypotheses contradict each other *)
  predicate smoke__
  val cdiv (x y: int) : int
    requires { [@expl:division by zero] y <> 0 }
    requires { [@expl:signed overflow] y <> -1 }
    ensures { result = ctdiv x y }
  val cdivmod (x y: int) : int
    requires { [@expl:division by zero] y <> 0 }
    requires { [@expl:signed overflow] y <> -1 }
    ensures { result = x - y * ctdiv x y }
  let function cmax (x y: int) : int = if x < y then y else x
  let function cmin (x y: int) : int = if y < x then y else x
  let beq (a b: bool) : bool ensures { result <-> (a <-> b) } = if a then b else not b

  (* typed reads: an object of an integer type holds a value of that type.
     Justified by the translation: every store is converted to the type. *)
  val rd_u8 (x: int) : int ensures { result = x && 0 <= x <= 255 }
  val rd_u16 (x: int) : int ensures { result = x && 0 <= x <= 65535 }
  (* an uninitialised machine integer *)
  val havoc (lo hi: int) : int requires { lo <= hi } ensures { lo <= result <= hi }
  val rd_u32 (x: int) : int ensures { result = x && 0 <= x <= 4294967295 }
  val rd_u64 (x: int) : int ensures { result = x && 0 <= x <= 18446744073709551615 }
  val rd_i8 (x: int) : int ensures { result = x && -128 <= x <= 127 }
  val rd_i32 (x: int) : int ensures { result = x && -2147483648 <= x <= 2147483647 }
  val rd_i64 (x: int) : int ensures { result = x && -9223372036854775808 <= x <= 9223372036854775807 }

  (* result of a modelled library call *)
  val any_int () : int
  (* std::vector *)
  val vget (s: vec 'a) (i: int) : 'a
    requires { [@expl:index in bounds] 0 <= i < length s }
    ensures { result = s[i] }
  val vset (s: vec 'a) (i: int) (v: 'a) : vec 'a
    requires { [@expl:index in bounds] 0 <= i < length s }
    ensures { result = s[i<-v] }
  val vsize (s: vec 'a) : int ensures { result = length s && 0 <= result <= 0x1000000000000000 }
  val vnew () : vec 'a ensures { length result = 0 }
  val vpush (s: vec 'a) (v: 'a) : vec 'a
    ensures { result = push s v && 0 <= length s < 0x1000000000000000 }
  val vpop (s: vec 'a) : vec 'a
    requires { [@expl:pop of non-empty vector] length s > 0 }
    ensures { result = pop s }
  val vlast (s: vec 'a) : int
    requires { [@expl:back of non-empty vector] length s > 0 }
    ensures { result = length s - 1 && 0 <= result < 0x1000000000000000 }
  val vfill (n: int) (d: 'a) : vec 'a
    requires { n >= 0 }
    ensures { length result = n && n <= 0x1000000000000000 }
    ensures { forall i. 0 <= i < n -> result[i] = d }
  val vresize (s: vec 'a) (n: int) (d: 'a) : vec 'a
    requires { n >= 0 }
    ensures { length result = n && n <= 0x1000000000000000 && 0 <= length s }
    ensures { forall i. 0 <= i < length s -> i < n -> result[i] = s[i] }
    ensures { forall i. length s <= i < n -> result[i] = d }
  val vshift (s: vec 'a) : vec 'a
    requires { [@expl:pop of non-empty queue] length s > 0 }
    ensures { length result = length s - 1 }
    ensures { forall i. result[i] = s[i + 1] }

  (* std::unordered_map with integer keys *)
  val umap_empty () : umap 'a ensures { forall k. not dom result k }
  val umap_mem (m: umap 'a) (k: int) : bool ensures { result <-> dom m k }
  val umap_add (m: umap 'a) (k: int) (v: 'a) : umap 'a
    ensures { result = mkumap (Map.set (dom m) k true) (Map.set (mp m) k v) }
  (* operator[] / emplace: a missing key gets the default *)
  val umap_touch (m: umap 'a) (k: int) (v: 'a) : umap 'a
    ensures { result = mkumap (Map.set (dom m) k true) (if dom m k then mp m else Map.set (mp m) k v) }
  val umap_remove (m: umap 'a) (k: int) : umap 'a
    ensures { result = mkumap (Map.set (dom m) k false) (mp m) }
  val umap_get (m: umap 'a) (k: int) : 'a
    requires { [@expl:key in map] dom m k } ensures { result = mp m k }
  val umap_set (m: umap 'a) (k: int) (v: 'a) : umap 'a
    requires { [@expl:key in map] dom m k }
    ensures { result = mkumap (dom m) (Map.set (mp m) k v) }

  (* std::unordered_set<int> *)
  type uset = { smem: int -> bool }
  val uset_empty () : uset ensures { forall k. not result.smem k }
  val uset_mem (s: uset) (k: int) : bool ensures { result <-> s.smem k }
  val uset_add (s: uset) (k: int) : uset ensures { result.smem = Map.set s.smem k true }
  val uset_elems (s: uset) : vec int
    ensures { length result >= 0 }
    ensures { forall i. 0 <= i < length result -> s.smem (result[i]) }
    ensures { forall i j. 0 <= i < j < length result -> result[i] <> result[j] }
    ensures { forall k. s.smem k -> exists i. 0 <= i < length result /\ result[i] = k }

  (* std::exit: control does not come back *)
  val cpp_exit () : unit ensures { false }
end
