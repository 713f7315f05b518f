# mutable_graph: adjacency lists, each undirected edge stored at both endpoints with reverse indices
include data_structure/mutable_graph.h
class mutable_graph

prelude {{{
  constant umax : int = 0xffffffffffffffff
  constant unone : int = 0xffffffff
  (* weight of the first n entries of an adjacency list that lead to b *)
  let rec ghost function wt (s: vec revEdge) (n b: int) : int
    variant { n }
  = if n <= 0 then 0 else wt s (n - 1) b + (if pure { s[n - 1].f_target = b } then pure { s[n - 1].f_weight } else 0)
  (* total weight of the first n entries *)
  let rec ghost function ws (s: vec revEdge) (n: int) : int
    variant { n }
  = if n <= 0 then 0 else ws s (n - 1) + pure { s[n - 1].f_weight }
  (* number of entries of the first k adjacency lists *)
  let rec ghost function sz (a: vec (vec revEdge)) (k: int) : int
    variant { k }
  = if k <= 0 then 0 else sz a (k - 1) + pure { length a[k - 1] }

  function w (a: vec (vec revEdge)) (u v: int) : int = wt a[u] (length a[u]) v
  function dg (a: vec (vec revEdge)) (u: int) : int = ws a[u] (length a[u])
  function nv (g: mutable_graph) : int = length g.f_vertices

  predicate tw (x y: revEdge) = x.f_target = y.f_target /\ x.f_weight = y.f_weight
  predicate slot (a: vec (vec revEdge)) (v e: int) = 0 <= v < length a /\ 0 <= e < length a[v]
  predicate partner (a: vec (vec revEdge)) (v e: int) =
    let r = a[v][e] in
    0 <= r.f_target < length a /\ r.f_target <> v /\ 0 <= r.f_reverse_edge < length a[r.f_target] /\
    0 <= r.f_weight <= umax /\
    (let q = a[r.f_target][r.f_reverse_edge] in q.f_target = v /\ q.f_reverse_edge = e /\ q.f_weight = r.f_weight)
  (* every stored edge has its mirror image at the other endpoint *)
  predicate sym (a: vec (vec revEdge)) = forall v e. slot a v e -> partner a v e
  predicate simple (a: vec (vec revEdge)) =
    forall v e f. slot a v e -> slot a v f -> a[v][e].f_target = a[v][f].f_target -> e = f
  predicate degs (g: mutable_graph) =
    length g.f_weighted_degree = nv g /\
    forall v. 0 <= v < nv g -> g.f_weighted_degree[v] = dg g.f_vertices v <= umax
  (* contained_in_this and current_position describe the same partition *)
  predicate maps (g: mutable_graph) =
    length g.f_contained_in_this = nv g /\
    (forall v i. 0 <= v < nv g -> 0 <= i < length g.f_contained_in_this[v] ->
        0 <= g.f_contained_in_this[v][i] < length g.f_current_position /\
        g.f_current_position[g.f_contained_in_this[v][i]] = v) /\
    (forall v i j. 0 <= v < nv g -> 0 <= i < j < length g.f_contained_in_this[v] ->
        g.f_contained_in_this[v][i] <> g.f_contained_in_this[v][j])
  (* every original vertex that still exists is listed where its position says *)
  predicate listed (g: mutable_graph) =
    forall o. 0 <= o < length g.f_current_position -> let v = g.f_current_position[o] in
      v = unone \/ (0 <= v < nv g /\ exists i. 0 <= i < length g.f_contained_in_this[v] /\ g.f_contained_in_this[v][i] = o)
  predicate shape (g: mutable_graph) =
    0 <= nv g < unone /\ length g.f_partition_index = nv g /\ length g.f_node_in_cut = nv g /\
    length g.f_current_position < unone /\ (forall v. 0 <= v < nv g -> 0 <= length g.f_vertices[v] < 0x1000000000000000)
  predicate counts (g: mutable_graph) = g.f_num_edges = sz g.f_vertices (nv g)
  predicate good (g: mutable_graph) =
    shape g /\ sym g.f_vertices /\ degs g /\ counts g
  predicate wf (g: mutable_graph) = good g /\ maps g /\ listed g
  predicate same_rows (a b: vec (vec revEdge)) =
    length a = length b /\ forall v. 0 <= v < length a -> length a[v] = length b[v] /\ forall i. 0 <= i < length a[v] -> tw a[v][i] b[v][i]

  (* the entry e of row n is overwritten by the last one, whose mirror image is redirected *)
  predicate idel (a b: vec (vec revEdge)) (n e: int) =
    let m = a[n][length a[n] - 1] in
    length b = length a /\ length b[n] = length a[n] - 1 /\
    (forall v. 0 <= v < length a -> v <> n -> length b[v] = length a[v]) /\
    (forall i. 0 <= i < length b[n] -> i <> e -> b[n][i] = a[n][i]) /\
    (e < length b[n] -> b[n][e] = m) /\
    (forall v i. slot a v i -> v <> n -> not (e < length b[n] /\ v = m.f_target /\ i = m.f_reverse_edge) -> b[v][i] = a[v][i]) /\
    (e < length b[n] -> b[m.f_target][m.f_reverse_edge] = { a[m.f_target][m.f_reverse_edge] with f_reverse_edge = e })

  (* ---- lemmas on the sums ---- *)
  let rec ghost wt_same (s t: vec revEdge) (n b: int)
    requires { forall i. 0 <= i < n -> tw s[i] t[i] } variant { n }
    ensures { wt s n b = wt t n b }
  = if n > 0 then wt_same s t (n - 1) b
  let rec ghost ws_same (s t: vec revEdge) (n: int)
    requires { forall i. 0 <= i < n -> s[i].f_weight = t[i].f_weight } variant { n }
    ensures { ws s n = ws t n }
  = if n > 0 then ws_same s t (n - 1)
  let rec ghost sz_same (s t: vec (vec revEdge)) (n: int)
    requires { forall i. 0 <= i < n -> length s[i] = length t[i] } variant { n }
    ensures { sz s n = sz t n }
  = if n > 0 then sz_same s t (n - 1)
  function wc (x: revEdge) (b: int) : int = if x.f_target = b then x.f_weight else 0
  (* t is s with one entry replaced *)
  let rec ghost wt_upd (s t: vec revEdge) (n e b: int)
    requires { 0 <= e < n /\ forall i. 0 <= i < n -> i <> e -> tw s[i] t[i] } variant { n }
    ensures { wt t n b = wt s n b - wc s[e] b + wc t[e] b }
  = if n - 1 = e then wt_same s t (n - 1) b else wt_upd s t (n - 1) e b
  let rec ghost ws_upd (s t: vec revEdge) (n e: int)
    requires { 0 <= e < n /\ forall i. 0 <= i < n -> i <> e -> s[i].f_weight = t[i].f_weight } variant { n }
    ensures { ws t n = ws s n - s[e].f_weight + t[e].f_weight }
  = if n - 1 = e then ws_same s t (n - 1) else ws_upd s t (n - 1) e
  let rec ghost sz_upd (s t: vec (vec revEdge)) (n e: int)
    requires { 0 <= e < n /\ forall i. 0 <= i < n -> i <> e -> length s[i] = length t[i] } variant { n }
    ensures { sz t n = sz s n - length s[e] + length t[e] }
  = if n - 1 = e then sz_same s t (n - 1) else sz_upd s t (n - 1) e
  (* entry e replaced by the last one, which is dropped *)
  predicate cut_out (s t: vec revEdge) (e: int) =
    0 <= e < length s /\ length t = length s - 1 /\
    (forall i. 0 <= i < length t -> i <> e -> tw t[i] s[i]) /\ (e < length t -> tw t[e] s[length s - 1])
  let ghost wt_cut (s t: vec revEdge) (e b: int)
    requires { cut_out s t e }
    ensures { wt t (length t) b = wt s (length s) b - wc s[e] b }
  = if e < pure { length t } then wt_upd s t (pure { length t }) e b else wt_same s t (pure { length t }) b
  let ghost ws_cut (s t: vec revEdge) (e: int)
    requires { cut_out s t e }
    ensures { ws t (length t) = ws s (length s) - s[e].f_weight }
  = if e < pure { length t } then ws_upd s t (pure { length t }) e else ws_same s t (pure { length t })
  let rec ghost wt_pos (s: vec revEdge) (n b: int)
    requires { forall i. 0 <= i < n -> 0 <= s[i].f_weight } variant { n }
    ensures { 0 <= wt s n b <= ws s n }
  = if n > 0 then wt_pos s (n - 1) b
  let rec ghost ws_ge (s: vec revEdge) (n e: int)
    requires { 0 <= e < n /\ forall i. 0 <= i < n -> 0 <= s[i].f_weight } variant { n }
    ensures { s[e].f_weight <= ws s n }
  = if n - 1 > e then ws_ge s (n - 1) e else wt_pos s (n - 1) 0
  let rec ghost sz_ge (a: vec (vec revEdge)) (n: int)
    requires { 0 <= n /\ forall v. 0 <= v < n -> 0 <= length a[v] } variant { n }
    ensures { 0 <= sz a n /\ forall v. 0 <= v < n -> length a[v] <= sz a n }
  = if n > 0 then sz_ge a (n - 1)
  let rec ghost sz_two (a: vec (vec revEdge)) (n u v: int)
    requires { 0 <= u < n /\ 0 <= v < n /\ u <> v /\ forall x. 0 <= x < n -> 0 <= length a[x] } variant { n }
    ensures { length a[u] + length a[v] <= sz a n }
  = if n - 1 = u || n - 1 = v then sz_ge a (n - 1) else sz_two a (n - 1) u v
  let rec ghost wt_none (s: vec revEdge) (n b: int)
    requires { forall i. 0 <= i < n -> s[i].f_target <> b } variant { n }
    ensures { wt s n b = 0 }
  = if n > 0 then wt_none s (n - 1) b
  let rec ghost wt_one (s: vec revEdge) (n e b: int)
    requires { 0 <= e < n /\ s[e].f_target = b /\ forall i. 0 <= i < n -> i <> e -> s[i].f_target <> b } variant { n }
    ensures { wt s n b = s[e].f_weight }
  = if n - 1 > e then wt_one s (n - 1) e b else wt_none s (n - 1) b
  (* two rows lose one entry each, all other rows keep targets and weights *)
  let ghost rows_cut (a b: vec (vec revEdge)) (v e t r: int)
    requires { length a = length b /\ slot a v e /\ slot a t r /\ v <> t /\ cut_out a[v] b[v] e /\ cut_out a[t] b[t] r }
    requires { forall x. 0 <= x < length a -> x <> v -> x <> t -> length b[x] = length a[x] /\ forall i. 0 <= i < length a[x] -> tw a[x][i] b[x][i] }
    ensures { forall x y. 0 <= x < length a -> w b x y = w a x y - (if x = v then wc a[v][e] y else if x = t then wc a[t][r] y else 0) }
    ensures { forall x. 0 <= x < length a -> dg b x = dg a x - (if x = v then a[v][e].f_weight else if x = t then a[t][r].f_weight else 0) }
    ensures { sz b (length a) = sz a (length a) - 2 }
  = let lemma f (x y: int) requires { 0 <= x < length a } ensures { w b x y = w a x y - (if x = v then wc a[v][e] y else if x = t then wc a[t][r] y else 0) }
      = if x = v then wt_cut (pure { a[v] }) (pure { b[v] }) e y else if x = t then wt_cut (pure { a[t] }) (pure { b[t] }) r y
        else wt_same (pure { a[x] }) (pure { b[x] }) (pure { length a[x] }) y in
    let lemma g (x: int) requires { 0 <= x < length a } ensures { dg b x = dg a x - (if x = v then a[v][e].f_weight else if x = t then a[t][r].f_weight else 0) }
      = if x = v then ws_cut (pure { a[v] }) (pure { b[v] }) e else if x = t then ws_cut (pure { a[t] }) (pure { b[t] }) r
        else ws_same (pure { a[x] }) (pure { b[x] }) (pure { length a[x] }) in
    let c = pure { a[v <- b[v]] } in
    sz_upd a c (pure { length a }) v; sz_upd c b (pure { length a }) t

  (* the last entry of row v moves to place e, that of row t to place r *)
  function del_from (a: vec (vec revEdge)) (v e t r u i: int) : int =
    if (u = v /\ i = e) \/ (u = t /\ i = r) then length a[u] - 1 else i
  function del_to (a: vec (vec revEdge)) (v e t r u i: int) : int =
    if u = v /\ i = length a[v] - 1 then e else if u = t /\ i = length a[t] - 1 then r else i
  predicate del_row (a b: vec (vec revEdge)) (v e t r u: int) =
    length b[u] = length a[u] - (if u = v \/ u = t then 1 else 0) /\
    forall i. 0 <= i < length b[u] -> let x = a[u][del_from a v e t r u i] in
      tw b[u][i] x /\ b[u][i].f_reverse_edge = del_to a v e t r x.f_target x.f_reverse_edge
  let ghost del_sym (a b: vec (vec revEdge)) (v e t r: int)
    requires { sym a /\ slot a v e /\ t = a[v][e].f_target /\ r = a[v][e].f_reverse_edge /\ length b = length a }
    requires { forall u. 0 <= u < length a -> del_row a b v e t r u }
    ensures { sym b /\ (simple a -> simple b) }
  = assert { partner a v e };
    let lemma f (u i: int) requires { slot b u i } ensures { partner b u i }
      = assert { del_row a b v e t r u };
        let o = pure { del_from a v e t r u i } in
        assert { slot a u o /\ partner a u o };
        let x = pure { a[u][o] } in
        assert { not (x.f_target = v /\ x.f_reverse_edge = e) /\ not (x.f_target = t /\ x.f_reverse_edge = r) };
        let j = pure { del_to a v e t r x.f_target x.f_reverse_edge } in
        assert { del_row a b v e t r x.f_target }; assert { 0 <= j < length b[x.f_target] };
        assert { del_from a v e t r x.f_target j = x.f_reverse_edge } in ()

  (* one entry is appended to each of two rows *)
  predicate row_add (r q: vec revEdge) (t x: int) =
    length q = length r + 1 /\ 0 <= length r /\ (forall i. 0 <= i < length r -> q[i] = r[i]) /\ q[length r].f_target = t /\ q[length r].f_weight = x
  let ghost rows_add (a b: vec (vec revEdge)) (s t x: int)
    requires { length b = length a /\ 0 <= s < length a /\ 0 <= t < length a /\ s <> t /\ row_add a[s] b[s] t x /\ row_add a[t] b[t] s x }
    requires { forall u. 0 <= u < length a -> u <> s -> u <> t -> b[u] = a[u] }
    ensures { forall u y. 0 <= u < length a -> w b u y = w a u y + (if (u = s /\ y = t) \/ (u = t /\ y = s) then x else 0) }
    ensures { forall u. 0 <= u < length a -> dg b u = dg a u + (if u = s \/ u = t then x else 0) }
    ensures { sz b (length a) = sz a (length a) + 2 }
  = let lemma f (u y: int) requires { 0 <= u < length a } ensures { w b u y = w a u y + (if (u = s /\ y = t) \/ (u = t /\ y = s) then x else 0) }
      = if u = s || u = t then wt_same (pure { a[u] }) (pure { b[u] }) (pure { length a[u] }) y in
    let lemma g (u: int) requires { 0 <= u < length a } ensures { dg b u = dg a u + (if u = s \/ u = t then x else 0) }
      = if u = s || u = t then ws_same (pure { a[u] }) (pure { b[u] }) (pure { length a[u] }) in
    let c = pure { a[s <- b[s]] } in
    sz_upd a c (pure { length a }) s; sz_upd c b (pure { length a }) t

  (* ---- moving the last vertex l into the hole 'node' ---- *)
  function org (l node x: int) : int = if x = node then l else x
  function ren (l node: int) (r: revEdge) : revEdge = if r.f_target = l then { r with f_target = node } else r
  predicate isolated (a: vec (vec revEdge)) (node: int) =
    forall v i. slot a v i -> v <> node -> partner a v i /\ a[v][i].f_target <> node
  predicate moved (a b: vec (vec revEdge)) (node: int) =
    let l = length a - 1 in 0 <= node <= l /\ length b = l /\
    forall x. 0 <= x < l -> length b[x] = length a[org l node x] /\
      forall i. 0 <= i < length b[x] -> b[x][i] = ren l node a[org l node x][i]
  let rec ghost wt_ren (s t: vec revEdge) (n l node y: int)
    requires { forall i. 0 <= i < n -> t[i] = ren l node s[i] /\ (s[i].f_target <> node) } requires { y <> l }
    variant { n } ensures { wt t n y = wt s n (org l node y) }
  = if n > 0 then wt_ren s t (n - 1) l node y
  let ghost moved_facts (a b: vec (vec revEdge)) (node: int)
    requires { moved a b node /\ isolated a node }
    ensures { sym b }
    ensures { forall x y. 0 <= x < length b -> 0 <= y < length b -> w b x y = w a (org (length b) node x) (org (length b) node y) }
    ensures { forall x. 0 <= x < length b -> dg b x = dg a (org (length b) node x) }
    ensures { sz b (length b) = sz a (length a) - length a[node] }
    ensures { simple a -> simple b }
  = let l = pure { length b } in
    let lemma f (x y: int) requires { 0 <= x < l /\ 0 <= y < l } ensures { w b x y = w a (org l node x) (org l node y) }
      = wt_ren (pure { a[org l node x] }) (pure { b[x] }) (pure { length b[x] }) l node y in
    let lemma g (x: int) requires { 0 <= x < l } ensures { dg b x = dg a (org l node x) }
      = ws_same (pure { a[org l node x] }) (pure { b[x] }) (pure { length b[x] }) in
    if node = l then sz_same a b l
    else begin let c = pure { a[node <- a[l]] } in sz_upd a c l node; sz_same c b l end
  (* mirror images hold for all edges except the first k of row 'node', which nobody refers to any more *)
  predicate alive (node k v i: int) = v <> node \/ k <= i
  predicate symk (a: vec (vec revEdge)) (node k: int) =
    forall v i. slot a v i -> alive node k v i -> partner a v i /\ alive node k a[v][i].f_target a[v][i].f_reverse_edge
  predicate twrow (s t: vec revEdge) = length s = length t /\ forall i. 0 <= i < length s -> tw s[i] t[i]
  (* one step of removing the edges of 'node' *)
  let ghost drop_one (a b: vec (vec revEdge)) (node k: int)
    requires { symk a node k /\ slot a node k /\ idel a b a[node][k].f_target a[node][k].f_reverse_edge }
    ensures { symk b node (k + 1) /\ length b = length a /\ twrow a[node] b[node] }
    ensures { forall x y. 0 <= x < length a -> x <> node -> y <> node -> w b x y = w a x y }
    ensures { forall x. 0 <= x < length a -> x <> node -> dg b x = dg a x - (if x = a[node][k].f_target then a[node][k].f_weight else 0) }
    ensures { sz b (length a) = sz a (length a) - 1 }
    ensures { simple a -> simple b }
  = let t = pure { a[node][k].f_target } in let r = pure { a[node][k].f_reverse_edge } in
    assert { cut_out a[t] b[t] r };
    assert { forall x. 0 <= x < length a -> x <> t -> twrow a[x] b[x] };
    let lemma f (x y: int) requires { 0 <= x < length a /\ x <> node /\ y <> node } ensures { w b x y = w a x y }
      = if x = t then wt_cut (pure { a[t] }) (pure { b[t] }) r y else wt_same (pure { a[x] }) (pure { b[x] }) (pure { length a[x] }) y in
    let lemma g (x: int) requires { 0 <= x < length a /\ x <> node } ensures { dg b x = dg a x - (if x = a[node][k].f_target then a[node][k].f_weight else 0) }
      = if x = t then ws_cut (pure { a[t] }) (pure { b[t] }) r else ws_same (pure { a[x] }) (pure { b[x] }) (pure { length a[x] }) in
    sz_upd a b (pure { length a }) t
  (* positions after loops over contained vertices *)
  predicate among (s: vec int) (n o: int) = exists j. 0 <= j < n /\ s[j] = o

  let rec ghost sz_zero (a: vec (vec revEdge)) (n: int)
    requires { forall v. 0 <= v < n -> length a[v] = 0 } variant { n }
    ensures { sz a n = 0 }
  = if n > 0 then sz_zero a (n - 1)
}}}

fn mutable_graph::start_construction as mg_start(n, m)
  requires nv this = 0 /\ length this.f_weighted_degree = 0 /\ length this.f_partition_index = 0 /\ length this.f_node_in_cut = 0
  requires length this.f_current_position = 0 /\ length this.f_contained_in_this = 0 /\ this.f_num_edges = 0 /\ n < unone
  ensures nv this = n /\ wf this
  ensures this.f_last_node = (old this).f_last_node /\ this.f_original_nodes = n /\ this.f_num_edges = 0
  ensures forall v. 0 <= v < n -> length this.f_vertices[v] = 0
  ensures length this.f_current_position = n /\ forall v. 0 <= v < n -> this.f_current_position[v] = v
  at_exit sz_zero (pure { this.f_vertices }) (pure { nv this })
  loop 1
    invariant 0 <= $1 <= n
    invariant length this.f_contained_in_this = $1 /\ length this.f_current_position = n
    invariant forall v. 0 <= v < $1 -> this.f_current_position[v] = v /\ length this.f_contained_in_this[v] = 1 /\ this.f_contained_in_this[v][0] = v
    variant n - $1

fn mutable_graph::finish_construction as mg_finish
  requires wf this
  ensures this = { (old this) with f_last_node = nv this }

fn mutable_graph::number_of_nodes as mg_n
  requires nv this < unone
  ensures result = nv this

fn mutable_graph::number_of_edges as mg_m
  ensures result = this.f_num_edges

fn mutable_graph::getEdgeTarget as mg_target(v, e)
  requires slot this.f_vertices v e
  ensures result = this.f_vertices[v][e].f_target

fn mutable_graph::getEdgeWeight as mg_weight(v, e)
  requires slot this.f_vertices v e
  ensures result = this.f_vertices[v][e].f_weight

fn mutable_graph::getReverseEdge as mg_reverse(v, e)
  requires slot this.f_vertices v e
  ensures result = this.f_vertices[v][e].f_reverse_edge

fn mutable_graph::getEdgeSource as mg_source(v, e)
  requires sym this.f_vertices /\ slot this.f_vertices v e
  ensures result = v

fn mutable_graph::get_first_edge as mg_first(v)
  ensures result = 0

fn mutable_graph::get_first_invalid_edge as mg_last(v)
  requires 0 <= v < nv this
  ensures result = length this.f_vertices[v]

fn mutable_graph::getUnweightedNodeDegree as mg_udeg(v)
  requires 0 <= v < nv this
  ensures result = length this.f_vertices[v]

fn mutable_graph::getWeightedNodeDegree as mg_wdeg(v)
  requires good this /\ 0 <= v < nv this
  ensures result = dg this.f_vertices v

fn mutable_graph::new_node as mg_node
  requires wf this /\ this.f_last_node <= nv this < unone - 1 /\ length this.f_current_position < unone - 1
  ensures wf this /\ result = (old this).f_last_node /\ this.f_last_node = result + 1
  ensures (old this).f_last_node < nv (old this) -> this = { (old this) with f_last_node = result + 1 }
  ensures (old this).f_last_node = nv (old this) -> nv this = nv (old this) + 1 /\ length this.f_vertices[result] = 0 /\
     length this.f_contained_in_this[result] = 1 /\ this.f_contained_in_this[result][0] = length (old this).f_current_position /\
     (forall v. 0 <= v < result -> this.f_vertices[v] = (old this).f_vertices[v] /\ this.f_contained_in_this[v] = (old this).f_contained_in_this[v]
        /\ this.f_partition_index[v] = (old this).f_partition_index[v] /\ this.f_node_in_cut[v] = (old this).f_node_in_cut[v]) /\
     (forall o. 0 <= o < length (old this).f_current_position -> this.f_current_position[o] = (old this).f_current_position[o])
  at_exit begin sz_same (pure { (old this).f_vertices }) (pure { this.f_vertices }) (pure { nv (old this) });
    let g0 = pure { old this } in let g1 = pure { this } in
    if pure { g0.f_last_node = nv g0 } then begin let m = pure { nv g0 } in
      assert { forall v. 0 <= v < m -> g1.f_contained_in_this[v] = g0.f_contained_in_this[v] };
      assert { forall o. 0 <= o < length g0.f_current_position -> g1.f_current_position[o] = g0.f_current_position[o] };
      assert { length g1.f_current_position = length g0.f_current_position + 1 /\ g1.f_current_position[length g0.f_current_position] = m };
      assert { length g1.f_contained_in_this[m] = 1 /\ g1.f_contained_in_this[m][0] = length g0.f_current_position };
      let lemma lst (o: int) requires { 0 <= o < length g1.f_current_position /\ g1.f_current_position[o] <> unone }
        ensures { let v = g1.f_current_position[o] in 0 <= v < nv g1 /\ exists i. 0 <= i < length g1.f_contained_in_this[v] /\ g1.f_contained_in_this[v][i] = o }
        = if o < pure { length g0.f_current_position } then assert { exists i. 0 <= i < length g0.f_contained_in_this[g0.f_current_position[o]] /\ g0.f_contained_in_this[g0.f_current_position[o]][i] = o } in
      assert { listed g1 } end end

fn mutable_graph::new_edge sig "#3" as mg_edge(source, target, weight)
  requires good this /\ source < nv this /\ target < nv this
  requires source < target -> dg this.f_vertices source + weight <= umax /\ dg this.f_vertices target + weight <= umax
  requires this.f_num_edges <= 0x0fffffffffffffff - 2
  ensures good this /\ (wf (old this) -> wf this)
  ensures this.f_num_edges = (old this).f_num_edges + (if source < target then 2 else 0)
  ensures source >= target -> this = old this /\ result = umax
  ensures source < target -> result = length (old this).f_vertices[source]
      /\ (forall v i. slot (old this).f_vertices v i -> this.f_vertices[v][i] = (old this).f_vertices[v][i])
      /\ length this.f_vertices[source] = result + 1 /\ length this.f_vertices[target] = length (old this).f_vertices[target] + 1
      /\ this.f_vertices[source][result].f_target = target /\ this.f_vertices[source][result].f_weight = weight
      /\ (let l = length (old this).f_vertices[target] in this.f_vertices[target][l].f_target = source /\ this.f_vertices[target][l].f_weight = weight)
      /\ (forall v. 0 <= v < nv this -> v <> source -> v <> target -> this.f_vertices[v] = (old this).f_vertices[v])
  ensures forall u v. 0 <= u < nv this -> 0 <= v < nv this ->
      w this.f_vertices u v = w (old this).f_vertices u v + (if source < target /\ (u = source /\ v = target \/ u = target /\ v = source) then weight else 0)
  ensures this = { (old this) with f_vertices = this.f_vertices ; f_weighted_degree = this.f_weighted_degree ; f_num_edges = this.f_num_edges }
  at_exit if source < target then begin
      assert { row_add (old this).f_vertices[source] this.f_vertices[source] target weight /\ row_add (old this).f_vertices[target] this.f_vertices[target] source weight };
      sz_ge (pure { (old this).f_vertices }) (pure { nv this });
      rows_add (pure { (old this).f_vertices }) (pure { this.f_vertices }) source target weight; assert { sym this.f_vertices } end

fn mutable_graph::new_edge_order as mg_edgeo(source, target, weight)
  requires wf this /\ source < nv this /\ target < nv this
  requires source <> target -> dg this.f_vertices source + weight <= umax /\ dg this.f_vertices target + weight <= umax
  requires this.f_num_edges <= 0x0fffffffffffffff - 2
  ensures wf this
  ensures source = target -> this = old this
  ensures forall u v. 0 <= u < nv this -> 0 <= v < nv this ->
      w this.f_vertices u v = w (old this).f_vertices u v + (if source <> target /\ (u = source /\ v = target \/ u = target /\ v = source) then weight else 0)
  ensures this = { (old this) with f_vertices = this.f_vertices ; f_weighted_degree = this.f_weighted_degree ; f_num_edges = this.f_num_edges }

fn mutable_graph::setEdgeWeight as mg_setw(v, e, weight)
  requires wf this /\ slot this.f_vertices v e
  requires let t = this.f_vertices[v][e].f_target in let x = this.f_vertices[v][e].f_weight in
           dg this.f_vertices v + weight - x <= umax /\ dg this.f_vertices t + weight - x <= umax
  ensures wf this
  ensures length this.f_vertices = length (old this).f_vertices /\ forall u. 0 <= u < nv this -> length this.f_vertices[u] = length (old this).f_vertices[u]
  (* exactly this edge and its mirror image get the weight *)
  ensures let t = (old this).f_vertices[v][e].f_target in let r = (old this).f_vertices[v][e].f_reverse_edge in
          (forall u i. slot (old this).f_vertices u i -> this.f_vertices[u][i] =
             if (u = v /\ i = e) \/ (u = t /\ i = r) then { (old this).f_vertices[u][i] with f_weight = weight } else (old this).f_vertices[u][i])
  ensures this = { (old this) with f_vertices = this.f_vertices ; f_weighted_degree = this.f_weighted_degree }
  at_exit begin let t = pure { (old this).f_vertices[v][e].f_target } in let r = pure { (old this).f_vertices[v][e].f_reverse_edge } in
      ws_upd (pure { (old this).f_vertices[v] }) (pure { this.f_vertices[v] }) (pure { length this.f_vertices[v] }) e;
      ws_upd (pure { (old this).f_vertices[t] }) (pure { this.f_vertices[t] }) (pure { length this.f_vertices[t] }) r;
      sz_same (pure { (old this).f_vertices }) (pure { this.f_vertices }) (pure { nv this });
      ws_ge (pure { (old this).f_vertices[v] }) (pure { length this.f_vertices[v] }) e; ws_ge (pure { (old this).f_vertices[t] }) (pure { length this.f_vertices[t] }) r;
      assert { counts this }; assert { sym this.f_vertices };
      let a0 = pure { (old this).f_vertices } in let a1 = pure { this.f_vertices } in
      let lemma oth (u: int) requires { 0 <= u < length a0 /\ u <> v /\ u <> t } ensures { dg a1 u = dg a0 u } = ws_same (pure { a0[u] }) (pure { a1[u] }) (pure { length a0[u] }) in
      assert { this.f_weighted_degree[v] = dg a1 v }; assert { this.f_weighted_degree[t] = dg a1 t }; assert { degs this }; assert { shape this } end

fn mutable_graph::internalDeleteEdge as mg_idel(n, e)
  requires slot this.f_vertices n e /\ length this.f_vertices[n] < 0x1000000000000000
  requires let m = this.f_vertices[n][length this.f_vertices[n] - 1] in
           slot this.f_vertices m.f_target m.f_reverse_edge /\ m.f_target <> n
  ensures idel (old this).f_vertices this.f_vertices n e
  ensures this = { (old this) with f_vertices = this.f_vertices }

fn mutable_graph::deleteEdge as mg_del(v, e)
  requires wf this /\ slot this.f_vertices v e
  ensures wf this /\ nv this = nv (old this) /\ (simple (old this).f_vertices -> simple this.f_vertices)
  ensures let t = (old this).f_vertices[v][e].f_target in let x = (old this).f_vertices[v][e].f_weight in
          (forall a b. 0 <= a < nv this -> 0 <= b < nv this ->
            w this.f_vertices a b = w (old this).f_vertices a b - (if (a = v /\ b = t) \/ (a = t /\ b = v) then x else 0)) /\
          length this.f_vertices[v] = length (old this).f_vertices[v] - 1 /\
          length this.f_vertices[t] = length (old this).f_vertices[t] - 1 /\
          (forall a. 0 <= a < nv this -> a <> v -> a <> t -> length this.f_vertices[a] = length (old this).f_vertices[a])
  ensures this = { (old this) with f_vertices = this.f_vertices ; f_weighted_degree = this.f_weighted_degree ; f_num_edges = this.f_num_edges }
  at_exit begin let a0 = pure { (old this).f_vertices } in let a1 = pure { this.f_vertices } in
      let t = pure { a0[v][e].f_target } in let r = pure { a0[v][e].f_reverse_edge } in
      assert { cut_out a0[v] a1[v] e }; assert { cut_out a0[t] a1[t] r };
      assert { forall a. 0 <= a < nv this -> a <> v -> a <> t -> length a1[a] = length a0[a] /\ forall i. 0 <= i < length a0[a] -> tw a0[a][i] a1[a][i] };
      assert { forall u. 0 <= u < length a0 -> del_row a0 a1 v e t r u };
      del_sym a0 a1 v e t r;
      sz_ge a0 (pure { nv this }); sz_two a0 (pure { nv this }) v t;
      ws_ge (pure { a0[v] }) (pure { length a0[v] }) e; ws_ge (pure { a0[t] }) (pure { length a0[t] }) r; rows_cut a0 a1 v e t r; assert { shape this };
      let g1 = pure { this } in let lemma dgx (u: int) requires { 0 <= u < nv g1 } ensures { g1.f_weighted_degree[u] = dg a1 u <= umax } = wt_pos (pure { a0[u] }) (pure { length a0[u] }) 0 in assert { degs this }; assert { counts this } end

fn mutable_graph::deleteVertex as mg_delv(node)
  requires wf this /\ 0 <= node < nv this /\ this.f_last_node = nv this
  ensures wf this /\ nv this = nv (old this) - 1 /\ this.f_last_node = nv this /\ (simple (old this).f_vertices -> simple this.f_vertices)
  (* the last vertex takes the place of the removed one, everything else is as before *)
  ensures forall a b. 0 <= a < nv this -> 0 <= b < nv this ->
      w this.f_vertices a b = w (old this).f_vertices (org (nv this) node a) (org (nv this) node b)
  ensures forall a. 0 <= a < nv this -> this.f_partition_index[a] = (old this).f_partition_index[org (nv this) node a]
      /\ this.f_node_in_cut[a] = (old this).f_node_in_cut[org (nv this) node a]
      /\ this.f_contained_in_this[a] = (old this).f_contained_in_this[org (nv this) node a]
  ensures length this.f_current_position = length (old this).f_current_position
  ensures forall o. 0 <= o < length this.f_current_position -> this.f_current_position[o] =
      (let p = (old this).f_current_position[o] in if p = node then unone else if p = nv this then node else p)
  ensures this.f_original_nodes = (old this).f_original_nodes /\ this.f_partition_count = (old this).f_partition_count
  loop 1
    invariant 0 <= $1 <= length (old this).f_contained_in_this[node] /\ length this.f_current_position = length (old this).f_current_position
    invariant forall o. 0 <= o < length this.f_current_position ->
       this.f_current_position[o] = if among (old this).f_contained_in_this[node] $1 o then unone else (old this).f_current_position[o]
    variant length (old this).f_contained_in_this[node] - $1
    after assert { forall o. 0 <= o < length this.f_current_position -> this.f_current_position[o] =
       if (old this).f_current_position[o] = node then unone else (old this).f_current_position[o] }
  loop 2
    invariant 0 <= $2 <= length (old this).f_contained_in_this[back] /\ length this.f_current_position = length (old this).f_current_position
    invariant forall o. 0 <= o < length this.f_current_position ->
       this.f_current_position[o] = if among (old this).f_contained_in_this[back] $2 o then node else if (old this).f_current_position[o] = node then unone else (old this).f_current_position[o]
    variant length (old this).f_contained_in_this[back] - $2
    after assert { forall o. 0 <= o < length this.f_current_position -> this.f_current_position[o] =
       if (old this).f_current_position[o] = node then unone else if (old this).f_current_position[o] = back then node else (old this).f_current_position[o] }
  loop 3
    before sz_ge (pure { this.f_vertices }) (pure { nv this })
    invariant 0 <= $3 <= length this.f_vertices[node] /\ length this.f_vertices = nv (old this) /\ length this.f_weighted_degree = nv this
    invariant this = { (this at $L) with f_vertices = this.f_vertices ; f_weighted_degree = this.f_weighted_degree ; f_num_edges = this.f_num_edges }
    invariant symk this.f_vertices node $3 /\ twrow (old this).f_vertices[node] this.f_vertices[node]
    invariant forall x. 0 <= x < nv this -> 0 <= length this.f_vertices[x] < 0x1000000000000000
    invariant forall x. 0 <= x < nv this -> x <> node -> this.f_weighted_degree[x] = dg this.f_vertices x <= umax
    invariant forall x y. 0 <= x < nv this -> x <> node -> y <> node -> w this.f_vertices x y = w (old this).f_vertices x y
    invariant this.f_num_edges = sz this.f_vertices (nv this) - $3
    invariant simple (old this).f_vertices -> simple this.f_vertices
    variant length this.f_vertices[node] - $3
    begin begin let t = pure { this.f_vertices[node][$3].f_target } in
      sz_ge (pure { this.f_vertices }) (pure { nv this }); sz_two (pure { this.f_vertices }) (pure { nv this }) node t; assert { 2 <= this.f_num_edges };
      ws_ge (pure { this.f_vertices[t] }) (pure { length this.f_vertices[t] }) (pure { this.f_vertices[node][$3].f_reverse_edge }) end
    end drop_one (pure { this.f_vertices at $I }) (pure { this.f_vertices }) node $3
    after begin assert { isolated this.f_vertices node }; a3 <- pure { this.f_vertices } end
  loop 4
    invariant this = { (this at $L) with f_vertices = this.f_vertices }
    invariant 0 <= $4 <= length a3[back] /\ length this.f_vertices = length a3
    invariant forall x. 0 <= x < length a3 -> length this.f_vertices[x] = length a3[x]
    invariant forall x i. slot a3 x i -> x <> node -> this.f_vertices[x][i] =
      if a3[x][i].f_target = back /\ a3[x][i].f_reverse_edge < $4 then { a3[x][i] with f_target = node } else a3[x][i]
    variant length a3[back] - $4
    after assert { forall x i. slot a3 x i -> x <> node -> this.f_vertices[x][i] = ren back node a3[x][i] }
  at_entry let ghost ref a3 = pure { this.f_vertices } in ()
  at_exit begin
    assert { moved a3 this.f_vertices node }; moved_facts a3 (pure { this.f_vertices }) node;
    assert { shape this }; assert { degs this }; assert { counts this };
    let g0 = pure { old this } in let g1 = pure { this } in
    assert { forall o. 0 <= o < length g1.f_current_position -> g1.f_current_position[o] =
       (let p = g0.f_current_position[o] in if p = node then unone else if p = nv g1 then node else p) };
    assert { forall a. 0 <= a < nv g1 -> g1.f_contained_in_this[a] = g0.f_contained_in_this[org (nv g1) node a] };
    let lemma lst (o: int) requires { 0 <= o < length g1.f_current_position /\ g1.f_current_position[o] <> unone }
      ensures { let v = g1.f_current_position[o] in 0 <= v < nv g1 /\ exists i. 0 <= i < length g1.f_contained_in_this[v] /\ g1.f_contained_in_this[v][i] = o }
      = let v = pure { g1.f_current_position[o] } in let u = pure { g0.f_current_position[o] } in
        assert { u <> unone /\ 0 <= u < nv g0 /\ exists i. 0 <= i < length g0.f_contained_in_this[u] /\ g0.f_contained_in_this[u][i] = o };
        assert { u = org (nv g1) node v } in
    let lemma cont (v i: int) requires { 0 <= v < nv g1 /\ 0 <= i < length g1.f_contained_in_this[v] }
      ensures { 0 <= g1.f_contained_in_this[v][i] < length g1.f_current_position /\ g1.f_current_position[g1.f_contained_in_this[v][i]] = v }
      = let u = pure { org (nv g1) node v } in assert { 0 <= u < nv g0 /\ u <> node \/ node = nv g1 };
        assert { g0.f_current_position[g0.f_contained_in_this[u][i]] = u } in () end
