# k-cores: algorithms/misc/core_decomposition.h
include algorithms/misc/core_decomposition.h
import components
class k_cores
class core_decomposition

prelude {{{
  function eqv (b: int) : int -> bool = fun x -> x = b
  function mult (g: basicGraph) (a b: int) : int = vsum g ones (eqv b) a
  (* every edge is stored at both ends, equally often *)
  predicate symmetric (g: basicGraph) = forall a b. 0 <= a < nn g -> 0 <= b < nn g -> mult g a b = mult g b a
  (* every vertex of the set has at least k neighbours in it *)
  let rec ghost predicate dense_to (g: basicGraph) (s: int -> bool) (k n: int) variant { n }
  = if n <= 0 then true else if pure { not s (n - 1) \/ vsum g ones s (n - 1) >= k } then dense_to g s k (n - 1) else false
  predicate dense (g: basicGraph) (s: int -> bool) (k: int) = dense_to g s k (nn g)
  let rec ghost dense_at (g: basicGraph) (s: int -> bool) (k n v: int)
    requires { dense_to g s k n /\ 0 <= v < n /\ s v } variant { n } ensures { vsum g ones s v >= k }
  = if v < n - 1 then dense_at g s k (n - 1) v
  let rec ghost dense_all (g: basicGraph) (s: int -> bool) (k n: int)
    requires { forall v. 0 <= v < n -> s v -> vsum g ones s v >= k } variant { n } ensures { dense_to g s k n }
  = if n > 0 then dense_all g s k (n - 1)
  function atleast (d: vec int) (k: int) : int -> bool = fun u -> d[u] >= k
  (* d v is the largest k such that v lies in a set of minimum degree k *)
  predicate core_numbers (g: basicGraph) (d: vec int) =
    (forall k: int. dense g (atleast d k) k) /\
    (forall s: int -> bool, k v: int. dense g s k -> 0 <= v < nn g -> s v -> k <= d[v])

  function deg (g: basicGraph) : int -> int = fun v -> last g v - first g v
  function deq (f: int -> int) (d: int) : int -> bool = fun v -> f v = d
  function dlt (f: int -> int) (d: int) : int -> bool = fun v -> f v < d
  function cle (f: int -> int) (n d: int) : int = cnt (dlt f d) n
  function slot (f: int -> int) (n v: int) : int = cle f n (f v) + cnt (deq f (f v)) v
  let rec ghost cle_step (f: int -> int) (n d: int) variant { n }
    ensures { cle f n (d + 1) = cle f n d + cnt (deq f d) n }
  = if n > 0 then cle_step f (n - 1) d
  let rec ghost cle_mono (f: int -> int) (n a b: int) requires { a <= b } variant { n } ensures { cle f n a <= cle f n b }
  = if n > 0 then cle_mono f (n - 1) a b
  let rec ghost cle_all (f: int -> int) (n d: int) requires { n >= 0 /\ forall v. 0 <= v < n -> f v < d } variant { n } ensures { cle f n d = n }
  = if n > 0 then cle_all f (n - 1) d
  let rec ghost cle_none (f: int -> int) (n d: int) requires { n >= 0 /\ forall v. 0 <= v < n -> f v >= d } variant { n } ensures { cle f n d = 0 }
  = if n > 0 then cle_none f (n - 1) d
  let rec ghost cnt_none (p: int -> bool) (n: int) requires { n >= 0 /\ forall v. 0 <= v < n -> not p v } variant { n } ensures { cnt p n = 0 }
  = if n > 0 then cnt_none p (n - 1)
  let ghost slot_block (f: int -> int) (n v: int)
    requires { 0 <= v < n } ensures { cle f n (f v) <= slot f n v < cle f n (f v + 1) <= n }
  = cle_step f n (pure { f v }); cnt_mono (pure { deq f (f v) }) v n; assert { deq f (f v) v }
  let ghost slot_inj (f: int -> int) (n u v: int)
    requires { 0 <= u < v < n } ensures { slot f n u <> slot f n v }
  = slot_block f n u; slot_block f n v;
    if pure { f u = f v } then begin cnt_mono (pure { deq f (f u) }) u v; assert { deq f (f u) u } end
    else if pure { f u < f v } then cle_mono f n (pure { f u + 1 }) (pure { f v }) else cle_mono f n (pure { f v + 1 }) (pure { f u })
  let rec ghost nth (p: int -> bool) (k n: int) : int
    requires { 0 <= k < cnt p n } variant { n } ensures { 0 <= result < n /\ p result /\ cnt p result = k }
  = if pure { k < cnt p (n - 1) } then nth p k (n - 1) else n - 1
  let rec ghost which (f: int -> int) (n j d: int) : int
    requires { cle f n 0 <= j < cle f n d /\ 0 <= d } variant { d } ensures { 0 <= result < d /\ cle f n result <= j < cle f n (result + 1) }
  = if d = 0 then absurd else if pure { cle f n (d - 1) <= j } then d - 1 else which f n j (d - 1)
  (* every slot is taken *)
  let ghost owner (f: int -> int) (n j m: int) : int
    requires { 0 <= j < n /\ 0 <= m /\ forall v. 0 <= v < n -> 0 <= f v <= m } ensures { 0 <= result < n /\ slot f n result = j }
  = cle_all f n (m + 1); cle_none f n 0;
    let d = which f n j (m + 1) in cle_step f n d;
    nth (pure { deq f d }) (j - (pure { cle f n d })) n

  constant any_k : k_cores
  predicate perm (k: k_cores) (n: int) =
    length k.f_vertices = n /\ length k.f_position = n /\ length k.f_degrees = n /\
    (forall j. 0 <= j < n -> 0 <= k.f_vertices[j] < n /\ k.f_position[k.f_vertices[j]] = j) /\
    (forall v. 0 <= v < n -> 0 <= k.f_position[v] < n /\ k.f_vertices[k.f_position[v]] = v)
  (* the vertices of degree d or more stand from position buckets[d] on *)
  predicate sorted (k: k_cores) (n m: int) =
    length k.f_buckets = m + 1 /\ (forall v. 0 <= v < n -> 0 <= k.f_degrees[v] <= m) /\
    (forall d. 0 <= d <= m -> 0 <= k.f_buckets[d] <= n) /\
    (forall d j. 0 <= d <= m -> 0 <= j < n -> (k.f_degrees[k.f_vertices[j]] >= d <-> j >= k.f_buckets[d]))
  function rest (k: k_cores) (i: int) : int -> bool = fun x -> k.f_position[x] >= i
  function support (k: k_cores) (i d: int) : int -> bool = fun x -> k.f_position[x] >= i \/ k.f_degrees[x] >= d
  predicate level (k: k_cores) (n i lv: int) =
    0 <= lv /\ (forall j. 0 <= j < i -> k.f_degrees[k.f_vertices[j]] <= lv) /\ (forall j. i <= j < n -> k.f_degrees[k.f_vertices[j]] >= lv)
  predicate upper (k: k_cores) (g: basicGraph) (i: int) =
    forall u. 0 <= u < nn g -> k.f_position[u] >= i -> vsum g ones (rest k i) u <= k.f_degrees[u]
  predicate lower (k: k_cores) (g: basicGraph) (i: int) =
    forall u. 0 <= u < nn g -> vsum g ones (support k i k.f_degrees[u]) u >= k.f_degrees[u]
  predicate maximal (k: k_cores) (g: basicGraph) (i: int) =
    forall s: int -> bool, c v: int. dense g s c -> 0 <= v < nn g -> s v -> k.f_position[v] < i -> c <= k.f_degrees[v]
  predicate peeling (k: k_cores) (g: basicGraph) (i lv: int) =
    level k (nn g) i lv /\ upper k g i /\ lower k g i /\ maximal k g i
  (* degree of u while the edges of v (degree dv) below e are being removed *)
  predicate dropped (k o: k_cores) (g: basicGraph) (v e: int) =
    let dv = o.f_degrees[v] in
    forall u. 0 <= u < nn g -> k.f_degrees[u] =
      if o.f_degrees[u] <= dv then o.f_degrees[u]
      else let r = o.f_degrees[u] - psum (tgf g) ones (eqv u) (first g v) e in if r >= dv then r else dv
  let rec ghost psum_eq (t w: int -> int) (p q: int -> bool) (lo hi: int)
    requires { forall i. lo <= i < hi -> (p (t i) <-> q (t i)) } variant { hi - lo }
    ensures { psum t w p lo hi = psum t w q lo hi }
  = if lo < hi then psum_eq t w p q lo (hi - 1)
  let rec ghost psum_sub (t w: int -> int) (p q: int -> bool) (lo hi: int)
    requires { wposr w lo hi /\ forall i. lo <= i < hi -> p (t i) -> q (t i) } variant { hi - lo }
    ensures { psum t w p lo hi <= psum t w q lo hi }
  = if lo < hi then psum_sub t w p q lo (hi - 1)
  let rec ghost psum_sub1 (t w: int -> int) (p q: int -> bool) (b lo hi: int)
    requires { wposr w lo hi /\ forall i. lo <= i < hi -> p (t i) -> q (t i) \/ t i = b } variant { hi - lo }
    ensures { psum t w p lo hi <= psum t w q lo hi + psum t w (eqv b) lo hi }
  = if lo < hi then psum_sub1 t w p q b lo (hi - 1)
  let rec ghost psum_out (t w: int -> int) (p q: int -> bool) (b lo hi: int)
    requires { wposr w lo hi /\ forall i. lo <= i < hi -> (q (t i) <-> p (t i) \/ t i = b) /\ not (p (t i) /\ t i = b) } variant { hi - lo }
    ensures { psum t w q lo hi = psum t w p lo hi + psum t w (eqv b) lo hi }
  = if lo < hi then psum_out t w p q b lo (hi - 1)
  function drop1 (k o: k_cores) (g: basicGraph) (v e u: int) : int =
    let dv = o.f_degrees[v] in if o.f_degrees[u] <= dv then o.f_degrees[u]
      else let r = o.f_degrees[u] - psum (tgf g) ones (eqv u) (first g v) e in if r >= dv then r else dv
  let ghost use_dropped (k o: k_cores) (g: basicGraph) (v e u: int)
    requires { dropped k o g v e /\ 0 <= u < nn g } ensures { k.f_degrees[u] = drop1 k o g v e u } = ()
  let ghost use_max (k: k_cores) (g: basicGraph) (i: int) (s: int -> bool) (c v: int)
    requires { maximal k g i /\ dense g s c /\ 0 <= v < nn g /\ s v /\ k.f_position[v] < i } ensures { c <= k.f_degrees[v] } = ()
  (* one vertex has been removed *)
  let ghost removed (k o: k_cores) (g: basicGraph) (i lv m: int)
    requires { csr g /\ symmetric g /\ 0 <= i < nn g /\ perm o (nn g) /\ perm k (nn g) /\ sorted o (nn g) m /\ sorted k (nn g) m }
    requires { peeling o g i lv }
    requires { let v = o.f_vertices[i] in dropped k o g v (last g v) }
    requires { forall j. 0 <= j <= i -> k.f_vertices[j] = o.f_vertices[j] }
    ensures { peeling k g (i + 1) o.f_degrees[o.f_vertices[i]] }
  = let ghost v = pure { o.f_vertices[i] } in let ghost dv = pure { o.f_degrees[v] } in let ghost n = pure { nn g } in
    assert { dv >= lv };
    let lemma keep (u: int) requires { 0 <= u < n } ensures { k.f_position[u] <= i <-> o.f_position[u] <= i }
      = if pure { k.f_position[u] <= i } then assert { o.f_vertices[k.f_position[u]] = u } else if pure { o.f_position[u] <= i } then assert { k.f_vertices[o.f_position[u]] = u } in
    assert { k.f_position[v] = i /\ o.f_position[v] = i };
    assert { forall u. 0 <= u < n -> (k.f_position[u] >= i + 1 <-> o.f_position[u] >= i /\ u <> v) };
    let lemma few (u: int) requires { 0 <= u < n } ensures { k.f_degrees[u] <= o.f_degrees[u] /\ (o.f_degrees[u] <= dv -> k.f_degrees[u] = o.f_degrees[u]) /\ (o.f_degrees[u] >= dv -> k.f_degrees[u] >= dv) }
      = psum_le (pure { tgf g }) (pure { ones }) (pure { eqv u }) (pure { eqv u }) (pure { first g v }) (pure { last g v }) in
    let lemma later (j: int) requires { i <= j < n } ensures { o.f_degrees[o.f_vertices[j]] >= dv }
      = assert { 0 <= dv <= m }; assert { i >= o.f_buckets[dv] } in
    let lemma later2 (u: int) requires { 0 <= u < n /\ o.f_position[u] >= i } ensures { o.f_degrees[u] >= dv }
      = later (pure { o.f_position[u] }) in
    let lemma earlier (u: int) requires { 0 <= u < n /\ o.f_position[u] < i } ensures { o.f_degrees[u] <= lv }
      = assert { o.f_degrees[o.f_vertices[o.f_position[u]]] <= lv } in
    assert { level k n (i + 1) dv };
    let ghost t = pure { tgf g } in let ghost w = pure { ones } in
    assert { forall e. 0 <= e < length g.m_edges -> 0 <= t e < n };
    let lemma up (u: int) requires { 0 <= u < n /\ k.f_position[u] >= i + 1 } ensures { vsum g ones (rest k (i + 1)) u <= k.f_degrees[u] }
      = assert { forall e. first g u <= e < last g u -> (rest o i (t e) <-> rest k (i + 1) (t e) \/ t e = v) /\ not (rest k (i + 1) (t e) /\ t e = v) };
        psum_out t w (pure { rest k (i + 1) }) (pure { rest o i }) v (pure { first g u }) (pure { last g u });
        assert { mult g u v = mult g v u };
        assert { vsum g ones (rest o i) u <= o.f_degrees[u] };
        assert { vsum g ones (rest k (i + 1)) u = vsum g ones (rest o i) u - mult g v u };
        later2 u;
        assert { k.f_degrees[u] = if o.f_degrees[u] <= dv then o.f_degrees[u] else let r = o.f_degrees[u] - mult g v u in if r >= dv then r else dv };
        psum_le t w (pure { eqv u }) (pure { eqv u }) (pure { first g v }) (pure { last g v });
        assert { 0 <= mult g v u };
        assert { vsum g ones (rest k (i + 1)) u <= o.f_degrees[u] - mult g v u } in
    let lemma low (u: int) requires { 0 <= u < n } ensures { vsum g ones (support k (i + 1) k.f_degrees[u]) u >= k.f_degrees[u] }
      = let ghost du = pure { k.f_degrees[u] } in let ghost d0 = pure { o.f_degrees[u] } in
        let ghost f = pure { first g u } in let ghost l = pure { last g u } in
        let lemma inside (x: int) requires { 0 <= x < n /\ support o i d0 x } ensures { support k (i + 1) du x \/ x = v }
          = if pure { o.f_position[x] >= i } then () else begin assert { o.f_degrees[x] <= dv }; assert { k.f_degrees[x] = o.f_degrees[x] } end in
        assert { vsum g ones (support o i d0) u >= d0 };
        if pure { du <= dv } then begin
          assert { support k (i + 1) du v };
          psum_sub t w (pure { support o i d0 }) (pure { support k (i + 1) du }) f l
        end else begin
          psum_sub1 t w (pure { support o i d0 }) (pure { support k (i + 1) du }) v f l;
          assert { mult g u v = mult g v u };
          assert { du = d0 - mult g v u }
        end in
    let lemma big (s: int -> bool) (c x: int) requires { dense g s c /\ 0 <= x < n /\ s x /\ k.f_position[x] < i + 1 } ensures { c <= k.f_degrees[x] }
      = if pure { x = v } then begin
          if pure { exists y. 0 <= y < n /\ s y /\ o.f_position[y] < i } then begin
            let lemma before (y: int) requires { 0 <= y < n /\ s y /\ o.f_position[y] < i } ensures { c <= dv } = use_max o g i s c y; earlier y in ()
          end else begin
            assert { forall y. 0 <= y < n -> s y -> rest o i y }; dense_at g s c n v;
            psum_sub t w s (pure { rest o i }) (pure { first g v }) (pure { last g v });
            assert { vsum g ones (rest o i) v <= dv }
          end
        end else begin assert { o.f_position[x] < i }; use_max o g i s c x; earlier x; assert { k.f_degrees[x] = o.f_degrees[x] } end in
    assert { maximal k g (i + 1) }
  let ghost peeled (k: k_cores) (g: basicGraph) (lv: int)
    requires { csr g /\ perm k (nn g) /\ peeling k g (nn g) lv } ensures { core_numbers g k.f_degrees }
  = let lemma low (c: int) ensures { dense g (atleast k.f_degrees c) c }
      = let lemma one (v: int) requires { 0 <= v < nn g /\ atleast k.f_degrees c v } ensures { vsum g ones (atleast k.f_degrees c) v >= c }
          = assert { forall e. 0 <= e < length g.m_edges -> 0 <= tgf g e < nn g };
            psum_sub (pure { tgf g }) (pure { ones }) (pure { support k (nn g) k.f_degrees[v] }) (pure { atleast k.f_degrees c }) (pure { first g v }) (pure { last g v }) in
        dense_all g (pure { atleast k.f_degrees c }) c (pure { nn g })
    in assert { forall v. 0 <= v < nn g -> k.f_position[v] < nn g }
  (* t moves to the block below its own *)
  let ghost moved (k o: k_cores) (n m t: int)
    requires { perm o n /\ sorted o n m /\ 0 <= t < n /\ 0 < o.f_degrees[t] }
    requires { let d = o.f_degrees[t] in let p = o.f_buckets[d] in let x = o.f_vertices[p] in let q = o.f_position[t] in
      length k.f_vertices = n /\ length k.f_position = n /\ length k.f_degrees = n /\ length k.f_buckets = m + 1 /\
      k.f_degrees[t] = d - 1 /\ (forall u. 0 <= u < n -> u <> t -> k.f_degrees[u] = o.f_degrees[u]) /\
      k.f_buckets[d] = p + 1 /\ (forall e. 0 <= e <= m -> e <> d -> k.f_buckets[e] = o.f_buckets[e]) /\
      k.f_position[t] = p /\ k.f_vertices[p] = t /\ k.f_vertices[q] = x /\ k.f_position[x] = q /\
      (forall j. 0 <= j < n -> j <> p -> j <> q -> k.f_vertices[j] = o.f_vertices[j]) /\
      (forall u. 0 <= u < n -> u <> t -> u <> x -> k.f_position[u] = o.f_position[u]) }
    ensures { perm k n /\ sorted k n m }
  = let ghost d = pure { o.f_degrees[t] } in let ghost p = pure { o.f_buckets[d] } in let ghost x = pure { o.f_vertices[p] } in let ghost q = pure { o.f_position[t] } in
    assert { o.f_vertices[q] = t /\ o.f_degrees[o.f_vertices[q]] >= d };
    assert { p <= q < n };
    assert { o.f_degrees[x] >= d };
    if d < m then begin assert { q < o.f_buckets[d + 1] }; assert { not (o.f_degrees[o.f_vertices[p]] >= d + 1) } end;
    assert { o.f_degrees[x] = d };
    let lemma pos (j: int) requires { 0 <= j < n } ensures { 0 <= k.f_vertices[j] < n /\ k.f_position[k.f_vertices[j]] = j }
      = if j = p then () else if j = q then () else assert { o.f_vertices[j] <> t /\ o.f_vertices[j] <> x } in
    let lemma ver (v: int) requires { 0 <= v < n } ensures { 0 <= k.f_position[v] < n /\ k.f_vertices[k.f_position[v]] = v }
      = if v = t then () else if v = x then () else assert { o.f_position[v] <> p /\ o.f_position[v] <> q } in
    let lemma srt (e j: int) requires { 0 <= e <= m /\ 0 <= j < n } ensures { k.f_degrees[k.f_vertices[j]] >= e <-> j >= k.f_buckets[e] }
      = assert { o.f_degrees[o.f_vertices[j]] >= e <-> j >= o.f_buckets[e] };
        if j = p then begin assert { k.f_degrees[k.f_vertices[j]] = d - 1 /\ o.f_degrees[o.f_vertices[j]] = d } end
        else if j = q then assert { k.f_degrees[k.f_vertices[j]] = d /\ o.f_degrees[o.f_vertices[j]] = d }
        else assert { k.f_degrees[k.f_vertices[j]] = o.f_degrees[o.f_vertices[j]] /\ (e = d -> (j >= p <-> j >= p + 1)) } in
    ()
}}}

fn core_decomposition::batagelj_zaversnik as bz(gr)
  requires wf gr /\ symmetric gr.f_graphref
  ensures gr = old gr
  ensures core_numbers gr.f_graphref result.f_degrees /\ perm result (nn gr.f_graphref) /\ sorted result (nn gr.f_graphref) (length result.f_buckets - 1)
  at_entry let ghost g0 = pure { gr.f_graphref } in let ghost n0 = pure { nn g0 } in let ghost f = pure { deg g0 } in let ghost ref lv = 0 in
    let ghost ref k0 = pure { any_k } in let ghost ref v0 = 0 in let ghost ref m = 0 in
    assert { forall v. 0 <= v < n0 -> 0 <= f v <= length g0.m_edges }
  loop 1
    invariant 0 <= $1 <= n0 /\ 0 <= max_degree <= length g0.m_edges /\ length kCores.f_buckets = max_degree + 1
    invariant length kCores.f_degrees = n0 /\ length kCores.f_vertices = n0 /\ length kCores.f_position = n0
    invariant forall v. 0 <= v < $1 -> f v <= max_degree /\ kCores.f_degrees[v] = f v
    invariant forall d. 0 <= d <= max_degree -> kCores.f_buckets[d] = cnt (deq f d) $1
    invariant forall d. d > max_degree -> cnt (deq f d) $1 = 0
    variant n0 - $1
  loop 2
    before m <- pure { max_degree }; cle_none f n0 0
    invariant 0 <= i <= m + 1 /\ length kCores.f_buckets = m + 1 /\ kCores.f_degrees = (kCores at $L).f_degrees
    invariant length kCores.f_vertices = n0 /\ length kCores.f_position = n0
    invariant start = cle f n0 i
    invariant forall d. 0 <= d < i -> kCores.f_buckets[d] = cle f n0 d
    invariant forall d. i <= d <= m -> kCores.f_buckets[d] = cnt (deq f d) n0
    variant m + 1 - i
    begin cle_step f n0 (pure { i })
  loop 3
    invariant 0 <= $3 <= n0 /\ length kCores.f_buckets = m + 1 /\ kCores.f_degrees = (kCores at $L).f_degrees
    invariant length kCores.f_vertices = n0 /\ length kCores.f_position = n0
    invariant forall d. 0 <= d <= m -> kCores.f_buckets[d] = cle f n0 d + cnt (deq f d) $3
    invariant forall v. 0 <= v < $3 -> kCores.f_position[v] = slot f n0 v /\ kCores.f_vertices[slot f n0 v] = v
    variant n0 - $3
    begin let ghost u = pure { $3 } in slot_block f n0 u; let lemma other (v: int) requires { 0 <= v < u } ensures { slot f n0 v <> slot f n0 u } = slot_inj f n0 v u in ()
    after let lemma full (d: int) requires { 0 <= d <= m } ensures { kCores.f_buckets[d] = cle f n0 (d + 1) } = cle_step f n0 d in ();
      let lemma taken (j: int) requires { 0 <= j < n0 } ensures { 0 <= kCores.f_vertices[j] < n0 /\ slot f n0 kCores.f_vertices[j] = j }
        = let v = owner f n0 j m in assert { kCores.f_vertices[j] = v } in
      let lemma range (v: int) requires { 0 <= v < n0 } ensures { 0 <= slot f n0 v < n0 /\ cle f n0 (f v) <= slot f n0 v < cle f n0 (f v + 1) } = slot_block f n0 v in
      assert { perm kCores n0 };
      assert { forall v. 0 <= v < n0 -> kCores.f_degrees[v] = f v };
      assert { forall j. 0 <= j < n0 -> slot f n0 kCores.f_vertices[j] = j }
  loop 4
    invariant 0 <= i <= m /\ length kCores.f_buckets = m + 1 /\ kCores.f_degrees = (kCores at $L).f_degrees
    invariant kCores.f_vertices = (kCores at $L).f_vertices /\ kCores.f_position = (kCores at $L).f_position
    invariant forall d. i < d <= m -> kCores.f_buckets[d] = cle f n0 d
    invariant forall d. 0 <= d <= i -> kCores.f_buckets[d] = cle f n0 (d + 1)
    variant i
  loop 5
    before cle_none f n0 0; assert { forall d. 0 <= d <= m -> kCores.f_buckets[d] = cle f n0 d };
      assert { perm kCores n0 };
      assert { forall v. 0 <= v < n0 -> kCores.f_degrees[v] = f v };
      assert { forall j. 0 <= j < n0 -> slot f n0 kCores.f_vertices[j] = j };
      let ghost k5 = pure { kCores } in
      let lemma bk (d: int) requires { 0 <= d <= m } ensures { 0 <= cle f n0 d <= n0 } = cle_mono f n0 0 d; cle_mono f n0 d (m + 1); cle_all f n0 (m + 1) in
      let lemma st (d j: int) requires { 0 <= d <= m /\ 0 <= j < n0 } ensures { k5.f_degrees[k5.f_vertices[j]] >= d <-> j >= k5.f_buckets[d] }
        = let ghost v = pure { k5.f_vertices[j] } in
          assert { slot f n0 v = j /\ k5.f_degrees[v] = f v /\ k5.f_buckets[d] = cle f n0 d };
          slot_block f n0 v;
          assert { cle f n0 (f v) <= j < cle f n0 (f v + 1) };
          if pure { f v >= d } then cle_mono f n0 d (pure { f v }) else cle_mono f n0 (pure { f v + 1 }) d in
      assert { sorted k5 n0 m };
      let lemma all_in (u: int) requires { 0 <= u < n0 } ensures { forall p: int -> bool. (forall x. 0 <= x < n0 -> p x) -> vsum g0 ones p u = f u }
        = let lemma one (p: int -> bool) requires { forall x. 0 <= x < n0 -> p x } ensures { vsum g0 ones p u = f u }
          = assert { forall e. 0 <= e < length g0.m_edges -> 0 <= tgf g0 e < n0 };
            psum_eq (pure { tgf g0 }) (pure { ones }) p (pure { all }) (pure { first g0 u }) (pure { last g0 u }); psum_ones (pure { tgf g0 }) (pure { first g0 u }) (pure { last g0 u }) in () in
      let lemma upp (u: int) requires { 0 <= u < n0 } ensures { vsum g0 ones (rest k5 0) u = k5.f_degrees[u] } = all_in u in
      let lemma lowp (u: int) requires { 0 <= u < n0 } ensures { vsum g0 ones (support k5 0 k5.f_degrees[u]) u = k5.f_degrees[u] } = all_in u in
      assert { peeling kCores g0 0 0 }
    invariant 0 <= $5 <= n0 /\ perm kCores n0 /\ sorted kCores n0 m
    invariant peeling kCores g0 $5 lv
    variant n0 - $5
    begin k0 <- (pure { kCores }); v0 <- (pure { $5 }); assert { dropped kCores k0 g0 k0.f_vertices[v0] (first g0 k0.f_vertices[v0]) }
    end removed (pure { kCores }) k0 g0 v0 lv m; lv <- (pure { k0.f_degrees[k0.f_vertices[v0]] })
    after peeled (pure { kCores }) g0 lv
  loop 6
    invariant first g0 v <= $6 <= last g0 v /\ v = k0.f_vertices[v0]
    invariant perm kCores n0 /\ sorted kCores n0 m
    invariant dropped kCores k0 g0 v $6
    invariant forall j. 0 <= j <= v0 -> kCores.f_vertices[j] = k0.f_vertices[j]
    variant last g0 v - $6
    begin let ghost kb = pure { kCores } in let ghost e0 = pure { $6 } in let ghost t = pure { tgf g0 e0 } in
       assert { 0 <= t < n0 /\ k0.f_degrees[v] >= lv /\ kb.f_degrees[v] = k0.f_degrees[v] };
       assert { kb.f_degrees[t] > kb.f_degrees[v] -> kb.f_buckets[kb.f_degrees[t]] <= kb.f_position[t] by kb.f_vertices[kb.f_position[t]] = t };
       assert { kb.f_degrees[t] > kb.f_degrees[v] -> kb.f_buckets[kb.f_degrees[t]] > v0
          by forall j. 0 <= j <= v0 -> kb.f_degrees[kb.f_vertices[j]] <= k0.f_degrees[v] }
    end if pure { kb.f_degrees[t] > kb.f_degrees[v] } then moved (pure { kCores }) kb n0 m t else assert { kCores = kb };
       let ghost ke = pure { kCores } in let ghost vv = pure { v } in
       let lemma step (u: int) requires { 0 <= u < n0 } ensures { psum (tgf g0) ones (eqv u) (first g0 vv) (e0 + 1) = psum (tgf g0) ones (eqv u) (first g0 vv) e0 + (if u = t then 1 else 0) } = () in
       let lemma fin (u: int) requires { 0 <= u < n0 }
         ensures { ke.f_degrees[u] = if k0.f_degrees[u] <= k0.f_degrees[vv] then k0.f_degrees[u]
           else let r = k0.f_degrees[u] - psum (tgf g0) ones (eqv u) (first g0 vv) (e0 + 1) in if r >= k0.f_degrees[vv] then r else k0.f_degrees[vv] }
       = step u; use_dropped kb k0 g0 vv e0 u; assert { kb.f_degrees[u] = if k0.f_degrees[u] <= k0.f_degrees[vv] then k0.f_degrees[u]
           else let r = k0.f_degrees[u] - psum (tgf g0) ones (eqv u) (first g0 vv) e0 in if r >= k0.f_degrees[vv] then r else k0.f_degrees[vv] };
         if u = t then () else assert { ke.f_degrees[u] = kb.f_degrees[u] } in
       assert { dropped kCores k0 g0 v (e0 + 1) }

text {{{
  function nxt (c: vec int) (n i: int) : int = if i < length c then c[i] else n
  (* an edge of the row comes from a kept edge *)
  let rec ghost row_from (h g: basicGraph) (p: int -> bool) (v st hi i: int) : int
    requires { row_kept h g p v st hi /\ first g v <= hi /\ st <= i < st + psum (tgf g) ones p (first g v) hi } variant { hi - first g v }
    ensures { first g v <= result < hi /\ p (tgf g result) /\ tgf h i = cnt p (tgf g result) }
  = if hi <= pure { first g v } then absurd
    else if pure { p (tgf g (hi - 1)) /\ i = st + psum (tgf g) ones p (first g v) (hi - 1) } then hi - 1 else row_from h g p v st (hi - 1) i
  let rec ghost row_to (h g: basicGraph) (p: int -> bool) (v st hi e: int) : int
    requires { row_kept h g p v st hi /\ first g v <= e < hi /\ p (tgf g e) } variant { hi - first g v }
    ensures { st <= result < st + psum (tgf g) ones p (first g v) hi /\ tgf h result = cnt p (tgf g e) }
  = psum_le (pure { tgf g }) (pure { ones }) p p (pure { first g v }) (hi - 1);
    if e = hi - 1 then pure { st + psum (tgf g) ones p (first g v) e } else row_to h g p v st (hi - 1) e
  let ghost use_undirected (g: basicGraph) (a e: int)
    requires { undirected g /\ arc g a e } ensures { edge_between g (tg g e) a } = ()
  let ghost core_simple (h g: basicGraph) (p: int -> bool)
    requires { csr g /\ csr h /\ induced h g p /\ noloops g /\ undirected g }
    ensures { noloops h /\ undirected h }
  = let ghost n = pure { nn g } in
    let lemma back (a e: int) requires { arc h a e } ensures { tgf h e <> a /\ edge_between h (tg h e) a }
      = let v = nth p a n in
        let f = row_from h g p v (pure { first h a }) (pure { last g v }) e in
        let u = pure { tgf g f } in
        assert { arc g v f /\ u <> v };
        cnt_inj p u v;
        assert { tg g f = u }; use_undirected g v f;
        let lemma there (f': int) requires { arc g u f' /\ tg g f' = v } ensures { edge_between h (cnt p u) a }
          = let i = row_to h g p u (pure { first h (cnt p u) }) (pure { last g u }) f' in assert { arc h (cnt p u) i /\ tg h i = a } in
        () in
    ()
}}}

fn core_decomposition::createCoreGraph as core_create(kc, k, gr)
  requires wf gr /\ noloops gr.f_graphref /\ undirected gr.f_graphref
  requires core_numbers gr.f_graphref kc.f_degrees /\ perm kc (nn gr.f_graphref) /\ sorted kc (nn gr.f_graphref) (length kc.f_buckets - 1)
  requires 0 <= k < length kc.f_buckets /\ kc.f_buckets[k] < nn gr.f_graphref
  ensures gr = old gr
  ensures wf result /\ exists h: basicGraph. csr h /\ induced h gr.f_graphref (atleast kc.f_degrees k) /\ is_largest h (block h 0) /\ induced result.f_graphref h (block h 0)
  at_entry let ghost g0 = pure { gr.f_graphref } in let ghost p = pure { atleast kc.f_degrees k } in let ghost nv = pure { nn g0 } in let ghost ref hf = pure { g0 } in
    let ghost ref st = pure { fun (_:int) -> 0 } in let ghost total = pure { length g0.m_edges } in let ghost cn = pure { cnt p nv } in
    esum_part (pure { g0.m_edges }) total 0 0;
    let ghost bk = pure { kc.f_buckets[k] } in
    let lemma who (v: int) requires { 0 <= v < nv } ensures { p v <-> kc.f_position[v] >= bk } = assert { kc.f_vertices[kc.f_position[v]] = v } in
    let lemma rank (v: int) requires { 0 <= v <= nv } ensures { 0 <= cnt p v <= cnt p nv /\ (v < nv -> p v -> cnt p v < cnt p nv /\ cnt p (v + 1) = cnt p v + 1) }
      = cnt_mono p v nv in ()
  after_call largest_scc begin
    let ghost hr = pure { core_graph.f_graphref } in
    let ghost h1 = pure { hf } in
    let lemma rows (v: int) requires { 0 <= v < nv /\ p v }
        ensures { last hr (cnt p v) = first hr (cnt p v) + vsum g0 ones p v /\ row_kept hr g0 p v (first hr (cnt p v)) (last g0 v) }
        = row_same h1 hr g0 p v (pure { first h1 (cnt p v) }) (pure { last g0 v }) in
    assert { induced hr g0 p };
    assert { csr hr /\ is_largest hr (block hr 0) /\ induced $result.f_graphref hr (block hr 0) } end
  loop 1
    invariant 0 <= node <= nv /\ length reverse = nv /\ length core = cnt p node
    invariant forall v. 0 <= v < nv -> reverse[v] = if v < node && p v then cnt p v else nv
    invariant forall i. 0 <= i < length core -> 0 <= core[i] < node /\ p core[i] /\ cnt p core[i] = i
    invariant 0 <= num_edges <= node * 0xffffffff
    variant nv - node
    begin assert { p node <-> kc.f_position[node] >= bk }; let ghost n1 = pure { node } in let ghost r0 = pure { reverse } in ()
    end assert { reverse[n1] = if p n1 then cnt p n1 else nv }; assert { forall v. 0 <= v < n1 -> reverse[v] = r0[v] }
  loop 2
    before let lemma index (v: int) requires { 0 <= v < nv /\ p v } ensures { core[cnt p v] = v }
        = if pure { core[cnt p v] <> v } then cnt_inj p v (pure { core[cnt p v] }) in
      let lemma incr (i: int) requires { 0 <= i < cn } ensures { core[i] < nxt core nv (i + 1) <= nv }
        = if i + 1 < cn then begin if pure { core[i] >= core[i + 1] } then cnt_mono p (pure { core[i + 1] }) (pure { core[i] }) end in ()
    invariant 0 <= i <= cn
    invariant gbuilding core_graph /\ nn core_graph.f_graphref = cn /\ core_graph.f_graphref.f_node = i
    invariant core_graph.f_graphref.m_last_source < i
    invariant st 0 = 0 /\ st i = length core_graph.f_graphref.m_edges <= first g0 (nxt core nv i)
    invariant forall u v. 0 <= u <= v <= i -> 0 <= st u <= st v
    invariant forall u. 0 <= u <= core_graph.f_graphref.m_last_source -> first core_graph.f_graphref u = st u
    invariant forall u. core_graph.f_graphref.m_last_source < u <= i -> st u = length core_graph.f_graphref.m_edges
    invariant forall u. 0 <= u < i -> st (u + 1) = st u + vsum g0 ones p core[u] /\ row_kept core_graph.f_graphref g0 p core[u] (st u) (last g0 core[u])
    invariant esum core_graph.f_graphref.m_edges 0 (length core_graph.f_graphref.m_edges) <= esum g0.m_edges 0 (first g0 (nxt core nv i))
    variant cn - i
    begin let ghost i0 = pure { i } in let ghost v0 = pure { core[i] } in
      esum_split (pure { g0.m_edges }) 0 (pure { first g0 v0 }) (pure { last g0 v0 });
      esum_part (pure { g0.m_edges }) total (pure { first g0 v0 }) (pure { last g0 v0 });
      let ghost ha = pure { core_graph.f_graphref } in let ghost st0 = st in ()
    end begin
        let ghost hb = pure { core_graph.f_graphref } in
        st <- Map.set st (i0 + 1) (pure { length hb.m_edges });
        let ghost st1 = st in
        let lemma prev (u: int) requires { 0 <= u < i0 }
          ensures { st1 (u + 1) = st1 u + vsum g0 ones p core[u] /\ row_kept hb g0 p core[u] (st1 u) (last g0 core[u]) }
          = assert { st0 (u + 1) <= length ha.m_edges };
            assert { st1 u = st0 u /\ st1 (u + 1) = st0 (u + 1) };
            assert { row_kept ha g0 p core[u] (st1 u) (last g0 core[u]) };
            row_same ha hb g0 p (pure { core[u] }) (pure { st1 u }) (pure { last g0 core[u] }) in
        assert { st i0 = length ha.m_edges };
        assert { row_kept hb g0 p v0 (st i0) (last g0 v0) };
        let ghost nx = pure { nxt core nv (i0 + 1) } in
        assert { last g0 v0 <= first g0 nx };
        esum_split (pure { g0.m_edges }) 0 (pure { last g0 v0 }) (pure { first g0 nx });
        esum_part (pure { g0.m_edges }) total (pure { last g0 v0 }) (pure { first g0 nx })
      end
    after hf <- pure { core_graph.f_graphref }; esum_part (pure { g0.m_edges }) total 0 (pure { first g0 nv })
  loop 3
    before let ghost f0 = pure { first g0 v0 } in let ghost l0 = pure { last g0 v0 } in let ghost s0 = pure { length ha.m_edges } in ()
    invariant f0 <= $3 <= l0 /\ i = i0
    invariant gbuilding core_graph /\ nn core_graph.f_graphref = cn /\ core_graph.f_graphref.f_node = i0 + 1
    invariant core_graph.f_graphref.m_last_source <= i0
    invariant length core_graph.f_graphref.m_edges = s0 + psum (tgf g0) ones p f0 $3
    invariant s0 <= length core_graph.f_graphref.m_edges <= $3
    invariant forall j. 0 <= j < s0 -> core_graph.f_graphref.m_edges[j] = ha.m_edges[j]
    invariant forall u. 0 <= u <= core_graph.f_graphref.m_last_source -> first core_graph.f_graphref u = st u
    invariant forall u. core_graph.f_graphref.m_last_source < u <= i0 -> st u = length core_graph.f_graphref.m_edges
    invariant length core_graph.f_graphref.m_edges > s0 -> core_graph.f_graphref.m_last_source = i0
    invariant row_kept core_graph.f_graphref g0 p v0 s0 $3
    invariant esum core_graph.f_graphref.m_edges 0 (length core_graph.f_graphref.m_edges) <= esum g0.m_edges 0 $3
    variant l0 - $3
    begin let ghost hc = pure { core_graph.f_graphref } in let ghost e0 = pure { $3 } in let ghost lc = pure { length hc.m_edges } in
      assert { tgf g0 e0 <> v0 /\ 0 <= tgf g0 e0 < nv };
      if pure { p (tgf g0 e0) } then cnt_inj p v0 (pure { tgf g0 e0 })
    end begin
      assert { not p (tgf g0 e0) -> core_graph.f_graphref = hc };
      if pure { p (tgf g0 e0) } then begin
        assert { length core_graph.f_graphref.m_edges = lc + 1 };
        assert { forall j. 0 <= j < lc -> core_graph.f_graphref.m_edges[j] = hc.m_edges[j] };
        row_same hc (pure { core_graph.f_graphref }) g0 p v0 s0 e0;
        assert { tgf core_graph.f_graphref lc = cnt p (tgf g0 e0) /\ wtf core_graph.f_graphref lc = wtf g0 e0 };
        assert { row_kept core_graph.f_graphref g0 p v0 s0 (e0 + 1) };
        esum_same (pure { core_graph.f_graphref.m_edges }) (pure { hc.m_edges }) 0 lc
      end else begin
        assert { core_graph.f_graphref = hc };
        assert { row_kept hc g0 p v0 s0 (e0 + 1) }
      end;
      assert { row_kept core_graph.f_graphref g0 p v0 s0 (e0 + 1) } end
  loop 4
    before let ghost h1 = pure { core_graph.f_graphref } in
      assert { forall u. 0 <= u <= cn -> first h1 u = st u };
      let ghost sf = st in let ghost hf0 = pure { hf } in
      let lemma rows (v: int) requires { 0 <= v < nv /\ p v }
        ensures { last h1 (cnt p v) = first h1 (cnt p v) + vsum g0 ones p v /\ row_kept h1 g0 p v (first h1 (cnt p v)) (last g0 v) }
        = assert { first h1 (cnt p v) = sf (cnt p v) /\ last h1 (cnt p v) = sf (cnt p v + 1) }; row_same hf0 h1 g0 p v (pure { first h1 (cnt p v) }) (pure { last g0 v }) in
      assert { induced h1 g0 p };
      hf <- h1;
      core_simple h1 g0 p
    invariant 0 <= $4 <= cn /\ core_graph.f_graphref = h1 /\ wf core_graph
    invariant core_min_degree <= length h1.m_edges
    invariant forall u. 0 <= u < $4 -> core_min_degree <= last h1 u - first h1 u
    invariant core_min_degree = length h1.m_edges \/ exists u. 0 <= u < $4 /\ core_min_degree = last h1 u - first h1 u
    variant cn - $4
    after let ghost vm = pure { kc.f_vertices[bk] } in let ghost dm = pure { kc.f_degrees[vm] } in
      assert { p vm };
      let lemma least (v: int) requires { 0 <= v < nv /\ p v } ensures { kc.f_degrees[v] >= dm }
        = assert { kc.f_vertices[kc.f_position[v]] = v }; assert { kc.f_position[v] >= kc.f_buckets[dm] } in
      let lemma enough (v: int) requires { 0 <= v < nv /\ p v } ensures { vsum g0 ones p v >= dm }
        = dense_at g0 (pure { atleast kc.f_degrees dm }) dm nv v;
          assert { forall e. 0 <= e < length g0.m_edges -> 0 <= tgf g0 e < nv };
          psum_eq (pure { tgf g0 }) (pure { ones }) (pure { atleast kc.f_degrees dm }) p (pure { first g0 v }) (pure { last g0 v }) in
      let ghost cmd = pure { core_min_degree } in
      let lemma rowlen (u: int) requires { 0 <= u < cn } ensures { last hf u - first hf u >= dm }
        = let v = nth p u nv in enough v in
      assert { core_min_degree >= dm };
      if pure { core_min_degree > dm } then begin
        let lemma more (v: int) requires { 0 <= v < nv /\ p v } ensures { vsum g0 ones p v >= dm + 1 }
          = assert { last hf (cnt p v) - first hf (cnt p v) >= cmd } in
        dense_all g0 p (dm + 1) nv;
        assert { dm + 1 <= kc.f_degrees[vm] }
      end;
      assert { core_min_degree = dm }
