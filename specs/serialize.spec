# mutable_graph::serialize / deserialize
include data_structure/mutable_graph.h
import mutable_graph
class mutable_graph

prelude {{{
  (* entries of a row by target and weight; those marked by p *)
  let rec ghost function mc (r: vec revEdge) (n t x: int) : int
    variant { n }
  = if n <= 0 then 0 else mc r (n - 1) t x + (if pure { r[n - 1].f_target = t /\ r[n - 1].f_weight = x } then 1 else 0)
  let rec ghost function mcp (r: vec revEdge) (p: int -> bool) (n t x: int) : int
    variant { n }
  = if n <= 0 then 0 else mcp r p (n - 1) t x + (if pure { p (n - 1) /\ r[n - 1].f_target = t /\ r[n - 1].f_weight = x } then 1 else 0)
  let rec ghost function wsp (r: vec revEdge) (p: int -> bool) (n: int) : int
    variant { n }
  = if n <= 0 then 0 else wsp r p (n - 1) + (if pure { p (n - 1) } then pure { r[n - 1].f_weight } else 0)
  let rec ghost function cntp (p: int -> bool) (n: int) : int
    variant { n }
  = if n <= 0 then 0 else cntp p (n - 1) + (if pure { p (n - 1) } then 1 else 0)
  (* entries of a row that lead to a larger vertex *)
  let rec ghost function up (r: vec revEdge) (v n: int) : int
    variant { n }
  = if n <= 0 then 0 else up r v (n - 1) + (if pure { r[n - 1].f_target > v } then 1 else 0)
  let rec ghost function upto (a: vec (vec revEdge)) (v: int) : int
    variant { v }
  = if v <= 0 then 0 else upto a (v - 1) + up (pure { a[v - 1] }) (v - 1) (pure { length a[v - 1] })
  (* where the record of vertex v starts, and the entry of its edge k *)
  function vpos (g: mutable_graph) (v: int) : int = 4 + v + 2 * upto g.f_vertices v
  function epos (g: mutable_graph) (v k: int) : int = vpos g v + 1 + 2 * up g.f_vertices[v] v k
  function offs (g: mutable_graph) : int = if g.f_num_edges > nv g then g.f_num_edges else nv g
  predicate head (s: vec int) (g: mutable_graph) =
    s[0] = nv g /\ s[1] = g.f_num_edges /\ s[2] = g.f_partition_count /\ s[3] = g.f_original_nodes
  predicate row_at (s: vec int) (g: mutable_graph) (v hi: int) =
    s[vpos g v] = offs g + v /\
    forall k. 0 <= k < hi -> g.f_vertices[v][k].f_target > v ->
      s[epos g v k] = g.f_vertices[v][k].f_target /\ s[epos g v k + 1] = g.f_vertices[v][k].f_weight
  predicate encodes (s: vec int) (g: mutable_graph) =
    head s g /\ length s = vpos g (nv g) + 1 + nv g + g.f_original_nodes /\
    (forall v. 0 <= v < nv g -> row_at s g v (length g.f_vertices[v])) /\
    s[vpos g (nv g)] = umax /\
    (forall i. 0 <= i < nv g -> s[vpos g (nv g) + 1 + i] = g.f_partition_index[i]) /\
    (forall i. 0 <= i < g.f_original_nodes -> s[vpos g (nv g) + 1 + nv g + i] = g.f_current_position[i])
  predicate storable (g: mutable_graph) =
    wf g /\ nv g <= 0x7ffffff0 /\ nv g <= g.f_original_nodes = length g.f_current_position /\ g.f_num_edges <= 0x0fffffffffffffff /\
    (forall v. 0 <= v < nv g -> 0 <= g.f_partition_index[v] <= unone) /\ 0 <= g.f_partition_count <= unone /\
    (forall o. 0 <= o < length g.f_current_position -> 0 <= g.f_current_position[o] <= unone)
  predicate rows (a: vec (vec revEdge)) = 0 <= length a /\ forall v. 0 <= v < length a -> 0 <= length a[v]
  let rec ghost up_step (r: vec revEdge) (v a b: int)
    requires { 0 <= a <= b } variant { b, b - a } ensures { 0 <= up r v a <= up r v b /\ (a < b -> r[a].f_target > v -> up r v a < up r v b) }
  = if a < b then up_step r v a (b - 1) else if b > 0 then up_step r v 0 (b - 1)
  let rec ghost upto_step (a: vec (vec revEdge)) (u v: int)
    requires { 0 <= u <= v <= length a /\ rows a } variant { v, v - u } ensures { 0 <= upto a u <= upto a v /\ (u < v -> upto a u + up a[u] u (length a[u]) <= upto a v) }
  = if u < v then begin upto_step a u (v - 1); up_step (pure { a[v - 1] }) (v - 1) 0 (pure { length a[v - 1] }) end
    else if v > 0 then begin upto_step a 0 (v - 1); up_step (pure { a[v - 1] }) (v - 1) 0 (pure { length a[v - 1] }) end
  (* the entries of row u whose edge has been met after the first k entries of row v, at its smaller end *)
  function met (a: vec (vec revEdge)) (v k u: int) : int -> bool = fun i ->
    let r = a[u][i] in
    if r.f_target > u then u < v \/ (u = v /\ i < k) else r.f_target < v \/ (r.f_target = v /\ r.f_reverse_edge < k)
  let rec ghost cntp_same (p q: int -> bool) (n: int)
    requires { forall i. 0 <= i < n -> (p i <-> q i) } variant { n } ensures { cntp p n = cntp q n }
  = if n > 0 then cntp_same p q (n - 1)
  let rec ghost cntp_add (p q: int -> bool) (n k: int)
    requires { 0 <= k < n /\ not p k /\ q k /\ forall i. 0 <= i < n -> i <> k -> (p i <-> q i) } variant { n } ensures { cntp q n = cntp p n + 1 }
  = if n - 1 = k then cntp_same p q (n - 1) else cntp_add p q (n - 1) k
  let rec ghost function metall (a: vec (vec revEdge)) (v k n: int) : int
    variant { n }
  = if n <= 0 then 0 else metall a v k (n - 1) + cntp (pure { met a v k (n - 1) }) (pure { length a[n - 1] })
  (* the met set does not change, or grows by both entries of one edge *)
  let ghost met_skip (a: vec (vec revEdge)) (v k: int)
    requires { sym a /\ slot a v k /\ a[v][k].f_target < v }
    ensures { forall u i. slot a u i -> (met a v k u i <-> met a v (k + 1) u i) }
  = let lemma f (u i: int) requires { slot a u i } ensures { met a v k u i <-> met a v (k + 1) u i }
      = assert { partner a u i /\ partner a v k } in ()
  let ghost met_next (a: vec (vec revEdge)) (v: int)
    requires { sym a /\ 0 <= v < length a }
    ensures { forall u i. slot a u i -> (met a v (length a[v]) u i <-> met a (v + 1) 0 u i) }
  = let lemma f (u i: int) requires { slot a u i } ensures { met a v (length a[v]) u i <-> met a (v + 1) 0 u i }
      = assert { partner a u i } in ()
  let ghost met_edge (a: vec (vec revEdge)) (v k: int)
    requires { sym a /\ slot a v k /\ a[v][k].f_target > v }
    ensures { let t = a[v][k].f_target in let j = a[v][k].f_reverse_edge in slot a t j /\ a[t][j].f_target = v /\ a[t][j].f_weight = a[v][k].f_weight /\
       not met a v k v k /\ met a v (k + 1) v k /\ not met a v k t j /\ met a v (k + 1) t j /\
       forall u i. slot a u i -> not (u = v /\ i = k) -> not (u = t /\ i = j) -> (met a v k u i <-> met a v (k + 1) u i) }
  = assert { partner a v k };
    let ghost t = pure { a[v][k].f_target } in let ghost j = pure { a[v][k].f_reverse_edge } in
    let lemma f (u i: int) requires { slot a u i /\ not (u = v /\ i = k) /\ not (u = t /\ i = j) } ensures { met a v k u i <-> met a v (k + 1) u i }
      = assert { partner a u i } in ()
  let rec ghost metall_same (a: vec (vec revEdge)) (v k v' k' n: int)
    requires { rows a /\ 0 <= n <= length a /\ forall u i. slot a u i -> (met a v k u i <-> met a v' k' u i) } variant { n } ensures { metall a v k n = metall a v' k' n }
  = if n > 0 then begin cntp_same (pure { met a v k (n - 1) }) (pure { met a v' k' (n - 1) }) (pure { length a[n - 1] }); metall_same a v k v' k' (n - 1) end
  let rec ghost metall_edge (a: vec (vec revEdge)) (v k n: int)
    requires { rows a /\ 0 <= n <= length a /\ sym a /\ slot a v k /\ a[v][k].f_target > v } variant { n }
    ensures { metall a v (k + 1) n = metall a v k n + (if v < n then 1 else 0) + (if a[v][k].f_target < n then 1 else 0) }
  = if n > 0 then begin
      metall_edge a v k (n - 1); met_edge a v k;
      let ghost t = pure { a[v][k].f_target } in
      if n - 1 = v then cntp_add (pure { met a v k (n - 1) }) (pure { met a v (k + 1) (n - 1) }) (pure { length a[n - 1] }) k
      else if n - 1 = t then cntp_add (pure { met a v k (n - 1) }) (pure { met a v (k + 1) (n - 1) }) (pure { length a[n - 1] }) (pure { a[v][k].f_reverse_edge })
      else cntp_same (pure { met a v k (n - 1) }) (pure { met a v (k + 1) (n - 1) }) (pure { length a[n - 1] }) end
  let rec ghost cntp_none (p: int -> bool) (n: int)
    requires { forall i. 0 <= i < n -> not p i } variant { n } ensures { cntp p n = 0 }
  = if n > 0 then cntp_none p (n - 1)
  let rec ghost cntp_full (p: int -> bool) (n: int)
    requires { 0 <= n /\ forall i. 0 <= i < n -> p i } variant { n } ensures { cntp p n = n }
  = if n > 0 then cntp_full p (n - 1)
  let rec ghost metall_none (a: vec (vec revEdge)) (n: int)
    requires { rows a /\ 0 <= n <= length a /\ sym a } variant { n } ensures { metall a 0 0 n = 0 }
  = if n > 0 then begin assert { forall i. slot a (n - 1) i -> partner a (n - 1) i }; cntp_none (pure { met a 0 0 (n - 1) }) (pure { length a[n - 1] }); metall_none a (n - 1) end
  let rec ghost metall_full (a: vec (vec revEdge)) (n: int)
    requires { rows a /\ 0 <= n <= length a /\ sym a } variant { n } ensures { metall a (length a) 0 n = sz a n }
  = if n > 0 then begin assert { forall i. slot a (n - 1) i -> partner a (n - 1) i }; cntp_full (pure { met a (length a) 0 (n - 1) }) (pure { length a[n - 1] }); metall_full a (n - 1) end
  let rec ghost met_row (a: vec (vec revEdge)) (v k: int)
    requires { rows a /\ sym a /\ 0 <= v < length a /\ 0 <= k <= length a[v] } variant { k }
    ensures { metall a v k (length a) = metall a v 0 (length a) + 2 * up a[v] v k }
  = if k > 0 then begin
      met_row a v (k - 1); assert { partner a v (k - 1) };
      if pure { a[v][k - 1].f_target > v } then metall_edge a v (k - 1) (pure { length a })
      else begin met_skip a v (k - 1); metall_same a v (k - 1) v k (pure { length a }) end end
  let rec ghost met_rows (a: vec (vec revEdge)) (v: int)
    requires { rows a /\ sym a /\ 0 <= v <= length a } variant { v }
    ensures { metall a v 0 (length a) = 2 * upto a v }
  = if v > 0 then begin
      met_rows a (v - 1); met_row a (v - 1) (pure { length a[v - 1] }); met_next a (v - 1);
      metall_same a (v - 1) (pure { length a[v - 1] }) v 0 (pure { length a }) end
    else metall_none a (pure { length a })
  (* every edge goes up at exactly one of its ends *)
  let ghost up_half (a: vec (vec revEdge))
    requires { rows a /\ sym a } ensures { 2 * upto a (length a) = sz a (length a) }
  = met_rows a (pure { length a }); metall_full a (pure { length a })
}}}

fn mutable_graph::serialize as mg_ser
  requires storable this
  ensures this = old this /\ encodes result this
  at_entry up_half (pure { this.f_vertices }); assert { 2 * upto this.f_vertices (nv this) = this.f_num_edges }; upto_step (pure { this.f_vertices }) 0 (pure { nv this }); let ghost g0 = pure { this } in let ghost a = pure { this.f_vertices } in let ghost nvg = pure { nv this } in
    let lemma vmono (u v: int) requires { 0 <= u < v <= nv g0 } ensures { 4 <= vpos g0 u /\ vpos g0 u + 1 + 2 * up a[u] u (length a[u]) <= vpos g0 v }
      = upto_step a u v; upto_step a 0 u in
    let lemma emono (v k: int) requires { slot a v k /\ a[v][k].f_target > v } ensures { vpos g0 v < epos g0 v k /\ epos g0 v k + 2 <= vpos g0 (v + 1) }
      = up_step (pure { a[v] }) v k (pure { length a[v] }); up_step (pure { a[v] }) v 0 k in
    ()
  loop 1
    invariant 0 <= $1 <= nv this /\ next = vpos g0 $1 /\ head serial g0
    invariant length serial = vpos g0 (nv g0) + 1 + nv g0 + g0.f_original_nodes
    invariant forall v. 0 <= v < $1 -> row_at serial g0 v (length a[v])
    variant nv this - $1
    begin let ghost v0 = pure { $1 } in let ghost s0 = pure { serial } in ()
    end let ghost s1 = pure { serial } in let lemma old_rows (v: int) requires { 0 <= v < v0 } ensures { row_at s1 g0 v (length a[v]) }
         = assert { row_at s0 g0 v (length a[v]) }; assert { forall i. 0 <= i < vpos g0 v0 -> s1[i] = s0[i] }; vmono v v0 in ()
  loop 2
    invariant 0 <= $2 <= length a[v0] /\ head serial g0 /\ length serial = length s0
    invariant next = epos g0 v0 $2
    invariant row_at serial g0 v0 $2
    invariant forall i. 0 <= i < vpos g0 v0 -> serial[i] = s0[i]
    variant length a[v0] - $2
    begin let ghost k0 = pure { $2 } in up_step (pure { a[v0] }) v0 k0 (pure { length a[v0] });
      let lemma ups (k: int) requires { 0 <= k < k0 /\ a[v0][k].f_target > v0 } ensures { up a[v0] v0 k + 1 <= up a[v0] v0 k0 } = up_step (pure { a[v0] }) v0 k k0 in ()
  loop 3
    invariant 0 <= $3 <= nv this /\ next = vpos g0 (nv g0) + 1 + $3 /\ length serial = vpos g0 (nv g0) + 1 + nv g0 + g0.f_original_nodes
    invariant forall i. 0 <= i <= vpos g0 (nv g0) -> serial[i] = (serial at $L)[i]
    invariant forall i. 0 <= i < $3 -> serial[vpos g0 (nv g0) + 1 + i] = g0.f_partition_index[i]
    invariant forall v. 0 <= v < nv g0 -> row_at serial g0 v (length a[v])
    variant nv this - $3
    begin let ghost s0 = pure { serial } in ()
    end let ghost s1 = pure { serial } in let lemma keep (v: int) requires { 0 <= v < nv g0 } ensures { row_at s1 g0 v (length a[v]) }
         = assert { row_at s0 g0 v (length a[v]) }; assert { forall i. 0 <= i < vpos g0 (nv g0) -> s1[i] = s0[i] }; vmono v nvg in ()
  loop 4
    invariant 0 <= i <= g0.f_original_nodes /\ next = vpos g0 (nv g0) + 1 + nv g0 + i /\ length serial = vpos g0 (nv g0) + 1 + nv g0 + g0.f_original_nodes
    invariant forall j. 0 <= j <= vpos g0 (nv g0) + nv g0 -> serial[j] = (serial at $L)[j]
    invariant forall j. 0 <= j < i -> serial[vpos g0 (nv g0) + 1 + nv g0 + j] = g0.f_current_position[j]
    invariant forall v. 0 <= v < nv g0 -> row_at serial g0 v (length a[v])
    variant g0.f_original_nodes - i
    begin let ghost s0 = pure { serial } in ()
    end let ghost s1 = pure { serial } in let lemma keep (v: int) requires { 0 <= v < nv g0 } ensures { row_at s1 g0 v (length a[v]) }
         = assert { row_at s0 g0 v (length a[v]) }; assert { forall i. 0 <= i < vpos g0 (nv g0) -> s1[i] = s0[i] }; vmono v nvg in ()

text {{{
  let rec ghost mcp_same (r: vec revEdge) (p q: int -> bool) (n t x: int)
    requires { forall i. 0 <= i < n -> (p i <-> q i) } variant { n } ensures { mcp r p n t x = mcp r q n t x }
  = if n > 0 then mcp_same r p q (n - 1) t x
  let rec ghost mcp_add (r: vec revEdge) (p q: int -> bool) (n k t x: int)
    requires { 0 <= k < n /\ not p k /\ q k /\ forall i. 0 <= i < n -> i <> k -> (p i <-> q i) } variant { n }
    ensures { mcp r q n t x = mcp r p n t x + (if r[k].f_target = t /\ r[k].f_weight = x then 1 else 0) }
  = if n - 1 = k then mcp_same r p q (n - 1) t x else mcp_add r p q (n - 1) k t x
  let rec ghost mcp_full (r: vec revEdge) (p: int -> bool) (n t x: int)
    requires { forall i. 0 <= i < n -> p i } variant { n } ensures { mcp r p n t x = mc r n t x }
  = if n > 0 then mcp_full r p (n - 1) t x
  let rec ghost mcp_none (r: vec revEdge) (p: int -> bool) (n t x: int)
    requires { forall i. 0 <= i < n -> not p i } variant { n } ensures { mcp r p n t x = 0 }
  = if n > 0 then mcp_none r p (n - 1) t x
  let rec ghost mc_same (r s: vec revEdge) (n t x: int)
    requires { forall i. 0 <= i < n -> tw r[i] s[i] } variant { n } ensures { mc r n t x = mc s n t x }
  = if n > 0 then mc_same r s (n - 1) t x
  let rec ghost wsp_same (r: vec revEdge) (p q: int -> bool) (n: int)
    requires { forall i. 0 <= i < n -> (p i <-> q i) } variant { n } ensures { wsp r p n = wsp r q n }
  = if n > 0 then wsp_same r p q (n - 1)
  let rec ghost wsp_add (r: vec revEdge) (p q: int -> bool) (n k: int)
    requires { 0 <= k < n /\ not p k /\ q k /\ forall i. 0 <= i < n -> i <> k -> (p i <-> q i) } variant { n }
    ensures { wsp r q n = wsp r p n + r[k].f_weight }
  = if n - 1 = k then wsp_same r p q (n - 1) else wsp_add r p q (n - 1) k
  let rec ghost wsp_le (r: vec revEdge) (p: int -> bool) (n: int)
    requires { forall i. 0 <= i < n -> 0 <= r[i].f_weight } variant { n } ensures { wsp r p n <= ws r n }
  = if n > 0 then wsp_le r p (n - 1)
  let rec ghost wsp_none (r: vec revEdge) (p: int -> bool) (n: int)
    requires { forall i. 0 <= i < n -> not p i } variant { n } ensures { wsp r p n = 0 }
  = if n > 0 then wsp_none r p (n - 1)
  (* h holds the edges of g met so far, each with its weight *)
  predicate held (h g: mutable_graph) (v k: int) =
    nv h = nv g /\ h.f_num_edges = 2 * (upto g.f_vertices v + (if v < nv g then up g.f_vertices[v] v k else 0)) /\
    forall u. 0 <= u < nv g -> ws h.f_vertices[u] (length h.f_vertices[u]) = wsp g.f_vertices[u] (met g.f_vertices v k u) (length g.f_vertices[u]) /\
      forall t x. mc h.f_vertices[u] (length h.f_vertices[u]) t x = mcp g.f_vertices[u] (met g.f_vertices v k u) (length g.f_vertices[u]) t x
  predicate same_edges (h g: mutable_graph) =
    nv h = nv g /\ h.f_num_edges = g.f_num_edges /\
    forall u t x. 0 <= u < nv g -> mc h.f_vertices[u] (length h.f_vertices[u]) t x = mc g.f_vertices[u] (length g.f_vertices[u]) t x
  let ghost held_eq (h g: mutable_graph) (v k v' k': int)
    requires { held h g v k /\ 0 <= v < nv g /\ 0 <= k <= length g.f_vertices[v] /\ 0 <= v' <= nv g }
    requires { forall u i. slot g.f_vertices u i -> (met g.f_vertices v k u i <-> met g.f_vertices v' k' u i) }
    requires { upto g.f_vertices v + up g.f_vertices[v] v k = upto g.f_vertices v' + (if v' < nv g then up g.f_vertices[v'] v' k' else 0) }
    ensures { held h g v' k' }
  = let ghost a = pure { g.f_vertices } in
    let lemma f (u: int) requires { 0 <= u < nv g } ensures { wsp a[u] (met a v k u) (length a[u]) = wsp a[u] (met a v' k' u) (length a[u]) }
      = wsp_same (pure { a[u] }) (pure { met a v k u }) (pure { met a v' k' u }) (pure { length a[u] }) in
    let lemma c (u t x: int) requires { 0 <= u < nv g } ensures { mcp a[u] (met a v k u) (length a[u]) t x = mcp a[u] (met a v' k' u) (length a[u]) t x }
      = mcp_same (pure { a[u] }) (pure { met a v k u }) (pure { met a v' k' u }) (pure { length a[u] }) t x in ()
  (* row v behind the entries before k, none of which is met; the next one that goes up *)
  let rec ghost next_up (h g: mutable_graph) (v k: int) : int
    requires { wf g /\ 0 <= v < nv g /\ 0 <= k <= length g.f_vertices[v] /\ held h g v k }
    variant { length g.f_vertices[v] - k }
    ensures { k <= result <= length g.f_vertices[v] /\ up g.f_vertices[v] v result = up g.f_vertices[v] v k /\ held h g v result }
    ensures { result < length g.f_vertices[v] -> g.f_vertices[v][result].f_target > v }
  = if k = pure { length g.f_vertices[v] } then k
    else if pure { g.f_vertices[v][k].f_target > v } then k
    else begin assert { partner g.f_vertices v k }; met_skip (pure { g.f_vertices }) v k; held_eq h g v k v (k + 1); next_up h g v (k + 1) end
  let ghost row_end (h g: mutable_graph) (v: int)
    requires { wf g /\ 0 <= v < nv g /\ held h g v (length g.f_vertices[v]) } ensures { held h g (v + 1) 0 }
  = met_next (pure { g.f_vertices }) v; held_eq h g v (pure { length g.f_vertices[v] }) (v + 1) 0
  let ghost edge_in (h h': mutable_graph) (g: mutable_graph) (v k: int)
    requires { wf g /\ slot g.f_vertices v k /\ g.f_vertices[v][k].f_target > v /\ held h g v k /\ nv h' = nv h /\ h'.f_num_edges = h.f_num_edges + 2 /\ rows h.f_vertices }
    requires { let t = g.f_vertices[v][k].f_target in let x = g.f_vertices[v][k].f_weight in
      (forall u i. slot h.f_vertices u i -> h'.f_vertices[u][i] = h.f_vertices[u][i]) /\
      length h'.f_vertices[v] = length h.f_vertices[v] + 1 /\ length h'.f_vertices[t] = length h.f_vertices[t] + 1 /\
      h'.f_vertices[v][length h.f_vertices[v]].f_target = t /\ h'.f_vertices[v][length h.f_vertices[v]].f_weight = x /\
      h'.f_vertices[t][length h.f_vertices[t]].f_target = v /\ h'.f_vertices[t][length h.f_vertices[t]].f_weight = x /\
      forall u. 0 <= u < nv h -> u <> v -> u <> t -> h'.f_vertices[u] = h.f_vertices[u] }
    ensures { held h' g v (k + 1) }
  = let ghost a = pure { g.f_vertices } in let ghost t0 = pure { a[v][k].f_target } in let ghost j = pure { a[v][k].f_reverse_edge } in
    met_edge a v k;
    let lemma f (u: int) requires { 0 <= u < nv g } ensures { ws h'.f_vertices[u] (length h'.f_vertices[u]) = wsp a[u] (met a v (k + 1) u) (length a[u]) }
      = let ghost p = pure { met a v k u } in let ghost q = pure { met a v (k + 1) u } in let ghost n = pure { length a[u] } in
        ws_same (pure { h.f_vertices[u] }) (pure { h'.f_vertices[u] }) (pure { length h.f_vertices[u] });
        if u = v then wsp_add (pure { a[u] }) p q n k else if u = t0 then wsp_add (pure { a[u] }) p q n j else wsp_same (pure { a[u] }) p q n in
    let lemma c (u t x: int) requires { 0 <= u < nv g } ensures { mc h'.f_vertices[u] (length h'.f_vertices[u]) t x = mcp a[u] (met a v (k + 1) u) (length a[u]) t x }
      = let ghost p = pure { met a v k u } in let ghost q = pure { met a v (k + 1) u } in let ghost n = pure { length a[u] } in
        mc_same (pure { h.f_vertices[u] }) (pure { h'.f_vertices[u] }) (pure { length h.f_vertices[u] }) t x;
        if u = v then mcp_add (pure { a[u] }) p q n k t x else if u = t0 then mcp_add (pure { a[u] }) p q n j t x else mcp_same (pure { a[u] }) p q n t x in
    ()
  let ghost none_in (h g: mutable_graph)
    requires { wf g /\ nv h = nv g /\ h.f_num_edges = 0 /\ forall u. 0 <= u < nv g -> length h.f_vertices[u] = 0 } ensures { held h g 0 0 }
  = let ghost a = pure { g.f_vertices } in
    let lemma nm (u i: int) requires { slot a u i } ensures { not met a 0 0 u i } = assert { partner a u i } in
    let lemma f (u: int) requires { 0 <= u < nv g } ensures { wsp a[u] (met a 0 0 u) (length a[u]) = 0 } = wsp_none (pure { a[u] }) (pure { met a 0 0 u }) (pure { length a[u] }) in
    let lemma c (u t x: int) requires { 0 <= u < nv g } ensures { mcp a[u] (met a 0 0 u) (length a[u]) t x = 0 } = mcp_none (pure { a[u] }) (pure { met a 0 0 u }) (pure { length a[u] }) t x in ()
  let ghost all_in (h g: mutable_graph)
    requires { wf g /\ held h g (nv g) 0 } ensures { same_edges h g }
  = let ghost a = pure { g.f_vertices } in up_half a;
    let lemma nm (u i: int) requires { slot a u i } ensures { met a (nv g) 0 u i } = assert { partner a u i } in
    let lemma c (u t x: int) requires { 0 <= u < nv g } ensures { mcp a[u] (met a (nv g) 0 u) (length a[u]) t x = mc a[u] (length a[u]) t x } = mcp_full (pure { a[u] }) (pure { met a (nv g) 0 u }) (pure { length a[u] }) t x in ()
  (* the weight of an edge still fits *)
  let ghost room (h g: mutable_graph) (v k: int)
    requires { wf g /\ good h /\ slot g.f_vertices v k /\ g.f_vertices[v][k].f_target > v /\ held h g v k }
    ensures { let t = g.f_vertices[v][k].f_target in let x = g.f_vertices[v][k].f_weight in
      dg h.f_vertices v + x <= umax /\ dg h.f_vertices t + x <= umax }
  = let ghost a = pure { g.f_vertices } in met_edge a v k;
    let ghost t = pure { a[v][k].f_target } in let ghost j = pure { a[v][k].f_reverse_edge } in
    assert { forall u i. slot a u i -> partner a u i };
    wsp_add (pure { a[v] }) (pure { met a v k v }) (pure { met a v (k + 1) v }) (pure { length a[v] }) k;
    wsp_le (pure { a[v] }) (pure { met a v (k + 1) v }) (pure { length a[v] });
    wsp_add (pure { a[t] }) (pure { met a v k t }) (pure { met a v (k + 1) t }) (pure { length a[t] }) j;
    wsp_le (pure { a[t] }) (pure { met a v (k + 1) t }) (pure { length a[t] })
}}}

fn mutable_graph::deserialize as mg_deser(s)
  ghostparam src: mutable_graph
  requires storable src /\ encodes s src
  ensures wf result /\ same_edges result src
  ensures result.f_partition_count = src.f_partition_count /\ result.f_original_nodes = src.f_original_nodes /\ result.f_last_node = nv src
  ensures forall v. 0 <= v < nv src -> result.f_partition_index[v] = src.f_partition_index[v]
  ensures length result.f_current_position = length src.f_current_position /\ forall o. 0 <= o < length src.f_current_position -> result.f_current_position[o] = src.f_current_position[o]
  at_entry let ghost a = pure { src.f_vertices } in up_half a; upto_step a 0 (pure { nv src }); let ghost ref gv = -1 in let ghost ref gk = 0 in let ghost ref done_ = false in
    let lemma vmono (u v: int) requires { 0 <= u < v <= nv src } ensures { 4 <= vpos src u /\ vpos src u + 1 + 2 * up a[u] u (length a[u]) <= vpos src v }
      = upto_step a u v; upto_step a 0 u in
    let lemma emono (v k: int) requires { slot a v k /\ a[v][k].f_target > v } ensures { vpos src v < epos src v k /\ epos src v k + 2 <= vpos src (v + 1) }
      = up_step (pure { a[v] }) v k (pure { length a[v] }); up_step (pure { a[v] }) v 0 k in
    ()
  loop 1
    invariant (gv = -1 /\ deserial = 4 /\ held g src 0 0) \/ (0 <= gv < nv src /\ n = gv /\ 0 <= gk <= length a[gv] /\ deserial = epos src gv gk /\ held g src gv gk)
    invariant good g /\ nv g = nv src /\ g.f_num_edges <= src.f_num_edges
    invariant length g.f_partition_index = nv src /\ length g.f_contained_in_this = nv src /\ length g.f_node_in_cut = nv src
    invariant g = { (g at $L) with f_vertices = g.f_vertices; f_weighted_degree = g.f_weighted_degree; f_num_edges = g.f_num_edges }
    variant length s - deserial
    before none_in (pure { g }) src; let ghost nvs = pure { nv src } in
      assert { num_nodes = nv src /\ num_edges = src.f_num_edges /\ original_nodes = src.f_original_nodes /\ offset = offs src }
    begin let ghost d0 = pure { deserial } in let ghost ref ad = false in
      if gv >= 0 then begin
        let k = next_up (pure { g }) src gv gk in gk <- k;
        if k < pure { length a[gv] } then begin
          ad <- true; room (pure { g }) src gv k; emono gv k; vmono (gv + 1) nvs;
          assert { row_at s src gv (length a[gv]) };
          assert { s[d0] = a[gv][k].f_target /\ s[d0 + 1] = a[gv][k].f_weight };
          assert { partner a gv k }; up_step (pure { a[gv] }) gv k (k + 1); up_step (pure { a[gv] }) gv (k + 1) (pure { length a[gv] }); upto_step a (gv + 1) nvs
        end else begin
          row_end (pure { g }) src gv; gv <- gv + 1; gk <- 0; assert { d0 = vpos src gv } end
      end else begin gv <- 0; gk <- 0 end;
      if gv < nvs then begin vmono gv nvs; assert { row_at s src gv (length a[gv]) } end;
      let ghost gb = pure { g } in ()
    end if ad then begin edge_in gb (pure { g }) src gv gk; gk <- gk + 1 end
    after assert { gv = nv src /\ deserial = vpos src (nv src) + 1 /\ held g src (nv src) 0 }; all_in (pure { g }) src
  loop 2
    invariant 0 <= i <= nv src /\ deserial = vpos src (nv src) + 1 + i
    invariant forall v. 0 <= v < i -> g.f_partition_index[v] = src.f_partition_index[v] /\ length g.f_contained_in_this[v] = 0
    variant nv src - i
    begin assert { s[deserial] = src.f_partition_index[i] }
  loop 3
    invariant g = { (g at $L) with f_contained_in_this = g.f_contained_in_this; f_current_position = g.f_current_position }
    invariant length g.f_contained_in_this = nv src /\ length g.f_current_position = src.f_original_nodes
    before let ghost ref where = pure { fun (_:int) -> 0 } in ()
    invariant 0 <= i <= src.f_original_nodes /\ deserial = vpos src (nv src) + 1 + nv src + i
    invariant forall o. 0 <= o < i -> g.f_current_position[o] = src.f_current_position[o]
    invariant forall v j. 0 <= v < nv src -> 0 <= j < length g.f_contained_in_this[v] ->
        0 <= g.f_contained_in_this[v][j] < i /\ src.f_current_position[g.f_contained_in_this[v][j]] = v
    invariant forall v j j'. 0 <= v < nv src -> 0 <= j < j' < length g.f_contained_in_this[v] -> g.f_contained_in_this[v][j] < g.f_contained_in_this[v][j']
    invariant forall o. 0 <= o < i -> src.f_current_position[o] <> unone -> 0 <= src.f_current_position[o] < nv src /\
        0 <= where o < length g.f_contained_in_this[src.f_current_position[o]] /\ g.f_contained_in_this[src.f_current_position[o]][where o] = o
    variant src.f_original_nodes - i
    begin let ghost o0 = pure { i } in let ghost p0 = pure { src.f_current_position[i] } in
      if p0 <> unone then where <- Map.set where o0 (pure { length g.f_contained_in_this[p0] }); ()
    after let g1 = pure { g } in let wh = pure { where } in
      let lemma lst (o: int) requires { 0 <= o < length g1.f_current_position /\ g1.f_current_position[o] <> unone }
        ensures { let v = g1.f_current_position[o] in 0 <= v < nv g1 /\ exists i. 0 <= i < length g1.f_contained_in_this[v] /\ g1.f_contained_in_this[v][i] = o }
        = assert { g1.f_contained_in_this[g1.f_current_position[o]][wh o] = o } in
      assert { listed g }
