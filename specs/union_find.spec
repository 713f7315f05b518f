# sequential union-find: data_structure/union_find.h
include data_structure/union_find.h
class union_find
  # rep i: the canonical representative (root) of i's class; dep: a strictly
  # decreasing measure along parent links (ghost, never executed)
  ghost rep : int -> int
  ghost dep : int -> int

prelude {{{
  let rec ghost function nroots (p: int -> int) (n: int) : int
    requires { 0 <= n } variant { n } ensures { 0 <= result <= n }
  = if n = 0 then 0 else nroots p (n - 1) + (if p (n - 1) = n - 1 then 1 else 0)

  let rec lemma nroots_upd (p: int -> int) (i v n: int)
    requires { 0 <= n } variant { n }
    ensures { nroots (Map.set p i v) n = nroots p n
               + (if 0 <= i < n then (if v = i then 1 else 0) - (if p i = i then 1 else 0) else 0) }
  = if n > 0 then nroots_upd p i v (n - 1)

  let rec lemma nroots_two (p: int -> int) (i j n: int)
    requires { 0 <= i < j < n /\ p i = i /\ p j = j } variant { n }
    ensures { nroots p n >= 2 }
  = let rec lemma one (m: int) requires { i < m <= n } variant { m } ensures { nroots p m >= 1 }
      = if m > i + 1 then one (m - 1) in
    if n - 1 > j then nroots_two p i j (n - 1) else one (n - 1)

  let rec lemma nroots_id (p: int -> int) (n: int)
    requires { 0 <= n /\ forall i. 0 <= i < n -> p i = i } variant { n }
    ensures { nroots p n = n }
  = if n > 0 then nroots_id p (n - 1)

  predicate uf_inv (u: union_find) =
    length u.m_parent = length u.m_rank /\ 0 <= length u.m_parent <= 0x7fffffff /\
    (forall i. 0 <= i < length u.m_parent -> 0 <= u.m_parent[i] < length u.m_parent) /\
    (forall i. 0 <= i < length u.m_parent -> 0 <= u.rep i < length u.m_parent) /\
    (forall i. 0 <= i < length u.m_parent -> u.rep (u.m_parent[i]) = u.rep i) /\
    (forall i. 0 <= i < length u.m_parent -> u.m_parent[u.rep i] = u.rep i) /\
    (forall i. 0 <= i < length u.m_parent -> u.m_parent[i] = i -> u.rep i = i) /\
    (forall i. 0 <= i < length u.m_parent -> u.dep i >= 0 /\ (u.m_parent[i] <> i -> u.dep (u.m_parent[i]) < u.dep i)) /\
    u.m_n = nroots (elts u.m_parent) (length u.m_parent)
}}}

fn union_find::union_find as uf_new(n)
  requires n <= 0x7fffffff
  at_exit this <- { this with rep = pure { fun (i:int) -> i }; dep = pure { fun (_:int) -> 0 } }
  ensures uf_inv result /\ length result.m_parent = n /\ result.m_n = n
  ensures forall i. 0 <= i < n -> result.rep i = i
  loop 1
    invariant 0 <= $1 <= n /\ length obj__1.m_parent = n /\ length obj__1.m_rank = n /\ obj__1.m_n = n
    invariant forall j. 0 <= j < $1 -> obj__1.m_parent[j] = j
    variant n - $1

fn union_find::Find as uf_find(element)
  requires uf_inv this /\ 0 <= element < length this.m_parent
  ensures uf_inv this /\ result = this.rep element
  ensures this.rep = old this.rep /\ this.dep = old this.dep /\ this.m_rank = old this.m_rank /\ this.m_n = old this.m_n
  ensures length this.m_parent = length (old this.m_parent)
  ensures this.m_parent[result] = result /\ this.dep result <= this.dep element
  variant this.dep element

fn union_find::Union as uf_union(lhs, rhs)
  requires uf_inv this /\ 0 <= lhs < length this.m_parent /\ 0 <= rhs < length this.m_parent
  ensures uf_inv this /\ length this.m_parent = length (old this.m_parent)
  # the merged class is exactly the union of the two old classes, nothing else changes
  ensures result <-> (old this).rep lhs <> (old this).rep rhs
  ensures forall x y. 0 <= x < length this.m_parent -> 0 <= y < length this.m_parent ->
      (this.rep x = this.rep y <->
        ((old this).rep x = (old this).rep y
         \/ (((old this).rep x = (old this).rep lhs \/ (old this).rep x = (old this).rep rhs)
             /\ ((old this).rep y = (old this).rep lhs \/ (old this).rep y = (old this).rep rhs))))
  ensures this.m_n = (old this).m_n - (if result then 1 else 0)
  at_exit if $result then (
      let ghost a = pure { (this at Init).rep lhs } in
      let ghost b = pure { (this at Init).rep rhs } in
      let ghost r = pure { if this.m_parent[a] = a then a else b } in
      let ghost c = pure { if this.m_parent[a] = a then b else a } in
      this <- { this with
        rep = pure { fun x -> if (this at Init).rep x = c then r else (this at Init).rep x };
        dep = pure { fun x -> if (this at Init).rep x = c then (this at Init).dep x + (this at Init).dep r + 1 else (this at Init).dep x } })

fn union_find::n as uf_n
  requires uf_inv this
  ensures result = nroots (elts this.m_parent) (length this.m_parent)
