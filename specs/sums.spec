# sums of edge weights (or counts) over edge ranges, vertices and lists of vertices of a static graph
import graph_access

prelude {{{
  function last (g: basicGraph) (v: int) : int = first g (v + 1)
  function tgf (g: basicGraph) : int -> int = fun e -> g.m_edges[e].f_target
  function wtf (g: basicGraph) : int -> int = fun e -> g.m_edges[e].f_weight
  constant ones : int -> int = fun _ -> 1
  constant all : int -> bool = fun _ -> true
  predicate wpos (w: int -> int) = forall i. 0 <= w i
  (* weight w of the edges lo .. hi-1 whose target (t) satisfies p *)
  let rec ghost function psum (t w: int -> int) (p: int -> bool) (lo hi: int) : int
    variant { hi - lo }
  = if hi <= lo then 0 else psum t w p lo (hi - 1) + (if p (t (hi - 1)) then w (hi - 1) else 0)
  predicate wposr (w: int -> int) (lo hi: int) = forall i. lo <= i < hi -> 0 <= w i
  let rec ghost psum_le (t w: int -> int) (p q: int -> bool) (lo hi: int)
    requires { wposr w lo hi /\ forall x. p x -> q x } variant { hi - lo }
    ensures { 0 <= psum t w p lo hi <= psum t w q lo hi }
  = if lo < hi then psum_le t w p q lo (hi - 1)
  let rec ghost psum_add (t w: int -> int) (p q r: int -> bool) (lo hi: int)
    requires { forall x. (r x <-> p x \/ q x) /\ not (p x /\ q x) } variant { hi - lo }
    ensures { psum t w r lo hi = psum t w p lo hi + psum t w q lo hi }
  = if lo < hi then psum_add t w p q r lo (hi - 1)
  let rec ghost psum_same (t w t' w': int -> int) (p: int -> bool) (lo hi d: int)
    requires { forall i. lo <= i < hi -> t i = t' (i + d) /\ w i = w' (i + d) } variant { hi - lo }
    ensures { psum t w p lo hi = psum t' w' p (lo + d) (hi + d) }
  = if lo < hi then psum_same t w t' w' p lo (hi - 1) d
  let rec ghost psum_ext (t w: int -> int) (p q: int -> bool) (lo hi: int)
    requires { forall i. lo <= i < hi -> (p (t i) <-> q (t i)) \/ w i = 0 } variant { hi - lo }
    ensures { psum t w p lo hi = psum t w q lo hi }
  = if lo < hi then psum_ext t w p q lo (hi - 1)
  let rec ghost psum_split (t w: int -> int) (p: int -> bool) (lo mid hi: int)
    requires { lo <= mid <= hi } variant { hi - mid }
    ensures { psum t w p lo hi = psum t w p lo mid + psum t w p mid hi }
  = if mid < hi then psum_split t w p lo mid (hi - 1)
  let rec ghost psum_all (g: basicGraph) (lo hi: int)
    requires { lo <= hi } variant { hi - lo }
    ensures { psum (tgf g) (wtf g) all lo hi = esum g.m_edges lo hi }
  = if lo < hi then psum_all g lo (hi - 1)
  let rec ghost psum_ones (t: int -> int) (lo hi: int)
    requires { lo <= hi } variant { hi - lo }
    ensures { psum t ones all lo hi = hi - lo }
  = if lo < hi then psum_ones t lo (hi - 1)
  function vsum (g: basicGraph) (w: int -> int) (p: int -> bool) (v: int) : int =
    psum (tgf g) w p (first g v) (last g v)
  (* the same over the first k vertices of a list *)
  let rec ghost function gsum (g: basicGraph) (w: int -> int) (r: vec int) (p: int -> bool) (k: int) : int
    variant { k }
  = if k <= 0 then 0 else gsum g w r p (k - 1) + pure { vsum g w p r[k - 1] }
  let rec ghost gsum_le (g: basicGraph) (w: int -> int) (r: vec int) (p q: int -> bool) (k: int)
    requires { wposr w 0 (length g.m_edges) /\ csr g /\ (forall i. 0 <= i < k -> 0 <= r[i] < nn g) /\ forall x. p x -> q x } variant { k }
    ensures { 0 <= gsum g w r p k <= gsum g w r q k }
  = if k > 0 then begin gsum_le g w r p q (k - 1); psum_le (pure { tgf g }) w p q (pure { first g r[k - 1] }) (pure { last g r[k - 1] }) end
  let rec ghost gsum_add (g: basicGraph) (w: int -> int) (r: vec int) (p q s: int -> bool) (k: int)
    requires { forall x. (s x <-> p x \/ q x) /\ not (p x /\ q x) } variant { k }
    ensures { gsum g w r s k = gsum g w r p k + gsum g w r q k }
  = if k > 0 then begin gsum_add g w r p q s (k - 1); psum_add (pure { tgf g }) w p q s (pure { first g r[k - 1] }) (pure { last g r[k - 1] }) end
  let rec ghost gsum_none (g: basicGraph) (w: int -> int) (r: vec int) (p: int -> bool) (k: int)
    requires { forall x. not p x } variant { k }
    ensures { gsum g w r p k = 0 }
  = if k > 0 then begin gsum_none g w r p (k - 1); psum_add (pure { tgf g }) w p p p (pure { first g r[k - 1] }) (pure { last g r[k - 1] }) end
  (* total over the marked vertices below n *)
  let rec ghost function msum (g: basicGraph) (w: int -> int) (p: int -> bool) (mk: int -> bool) (n: int) : int
    variant { n }
  = if n <= 0 then 0 else msum g w p mk (n - 1) + (pure { if mk (n - 1) then vsum g w p (n - 1) else 0 })
  let rec ghost msum_same (g: basicGraph) (w: int -> int) (p a b: int -> bool) (n: int)
    requires { forall x. 0 <= x < n -> (a x <-> b x) } variant { n }
    ensures { msum g w p a n = msum g w p b n }
  = if n > 0 then msum_same g w p a b (n - 1)
  let rec ghost msum_add (g: basicGraph) (w: int -> int) (p a b: int -> bool) (v n: int)
    requires { 0 <= v < n /\ not a v /\ (forall x. 0 <= x < n -> (b x <-> a x \/ x = v)) } variant { n }
    ensures { msum g w p b n = msum g w p a n + vsum g w p v }
  = if n - 1 > v then msum_add g w p a b v (n - 1) else msum_same g w p a b (n - 1)
  let rec ghost msum_total (g: basicGraph) (w: int -> int) (p mk: int -> bool) (n: int)
    requires { csr g /\ 0 <= n <= nn g /\ wposr w 0 (length g.m_edges) } variant { n }
    ensures { 0 <= msum g w p mk n <= psum (tgf g) w all 0 (first g n) }
  = if n > 0 then begin
      msum_total g w p mk (n - 1);
      psum_split (pure { tgf g }) w all 0 (pure { first g (n - 1) }) (pure { first g n });
      psum_le (pure { tgf g }) w p all (pure { first g (n - 1) }) (pure { first g n }) end
}}}
