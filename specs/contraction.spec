# contraction of a static graph along a grouping: coarsening/contract_graph.h
include coarsening/contract_graph.h
extra template graphAccessPtr contraction::contractGraphSparse<graphAccessPtr>(graphAccessPtr, const std::vector<NodeID>&, const std::vector<std::vector<NodeID> >&);
import sums
import union_find
class contraction

prelude {{{
  (* the configuration does not change during a call *)
  constant cfg_save_cut : bool
  constant any_vec : vec int
  constant any_vec2 : vec (vec int)
  (* the vertices whose group is q; whose group is in the set q *)
  function eqm (m: vec int) (q: int) : int -> bool = fun t -> m[t] = q
  function inm (m: vec int) (q: int -> bool) : int -> bool = fun t -> q (m[t])
  (* rm lists the vertices of each group, every vertex once, at position pos *)
  predicate grouping (g: basicGraph) (m: vec int) (rm: vec (vec int)) (pos: int -> int) =
    length m = nn g /\ 0 <= length rm < 0x7fffffff /\ (forall p. 0 <= p < length rm -> 0 <= length rm[p] <= nn g) /\
    (forall v. 0 <= v < nn g -> 0 <= m[v] < length rm /\ 0 <= pos v < length rm[m[v]] /\ rm[m[v]][pos v] = v) /\
    (forall p j. 0 <= p < length rm -> 0 <= j < length rm[p] -> 0 <= rm[p][j] < nn g /\ m[rm[p][j]] = p /\ pos (rm[p][j]) = j)
  (* vertices handled before position node of group p *)
  function before (m: vec int) (pos: int -> int) (p node: int) : int -> bool = fun v -> m[v] < p \/ (m[v] = p /\ pos v < node)
  (* group p of h carries, to every set of other groups, the weight of the original edges into that set *)
  predicate row_ok (t w: int -> int) (lo hi: int) (g: basicGraph) (m: vec int) (r: vec int) (p: int) =
    (forall e. lo <= e < hi -> t e <> p) /\
    forall q: int -> bool. not (q p) -> psum t w q lo hi = gsum g (wtf g) r (inm m q) (length r)
  predicate contracts (h g: basicGraph) (m: vec int) (rm: vec (vec int)) =
    nn h = length rm /\
    forall p. 0 <= p < length rm -> row_ok (tgf h) (wtf h) (first h p) (last h p) g m rm[p] p
  (* the first k listed groups that satisfy q *)
  function listed (m: vec int) (q: int -> bool) (el: vec int) (k: int) : int -> bool =
    fun t -> q (m[t]) /\ exists i. 0 <= i < k /\ el[i] = m[t]
  predicate distinct (el: vec int) = forall i j. 0 <= i < j < length el -> el[i] <> el[j]
  (* sum over the listed groups = weight into them *)
  let rec ghost gsum_ext (g: basicGraph) (w: int -> int) (r: vec int) (p q: int -> bool) (k: int)
    requires { forall j e. 0 <= j < k -> first g r[j] <= e < last g r[j] -> (p (tgf g e) <-> q (tgf g e)) \/ w e = 0 } variant { k }
    ensures { gsum g w r p k = gsum g w r q k }
  = if k > 0 then begin gsum_ext g w r p q (k - 1); psum_ext (pure { tgf g }) w p q (pure { first g r[k - 1] }) (pure { last g r[k - 1] }) end
  let rec ghost list_sum (g: basicGraph) (w: int -> int) (r m el: vec int) (q: int -> bool) (t w': int -> int) (lo k n: int)
    requires { distinct el /\ 0 <= k <= length el }
    requires { forall i. 0 <= i < k -> t (lo + i) = el[i] /\ w' (lo + i) = gsum g w r (eqm m el[i]) n }
    variant { k }
    ensures { psum t w' q lo (lo + k) = gsum g w r (listed m q el k) n }
  = if k = 0 then gsum_none g w r (pure { listed m q el k }) n
    else begin
      list_sum g w r m el q t w' lo (k - 1) n;
      if pure { q el[k - 1] } then gsum_add g w r (pure { listed m q el (k - 1) }) (pure { eqm m el[k - 1] }) (pure { listed m q el k }) n
      else gsum_ext g w r (pure { listed m q el (k - 1) }) (pure { listed m q el k }) n
    end
  let rec ghost list_count (g: basicGraph) (r m el: vec int) (k n: int)
    requires { distinct el /\ 0 <= k <= length el }
    requires { forall i. 0 <= i < k -> 1 <= gsum g ones r (eqm m el[i]) n }
    variant { k }
    ensures { k <= gsum g ones r (listed m all el k) n }
  = if k = 0 then gsum_none g (pure { ones }) r (pure { listed m all el k }) n
    else begin
      list_count g r m el (k - 1) n;
      gsum_add g (pure { ones }) r (pure { listed m all el (k - 1) }) (pure { eqm m el[k - 1] }) (pure { listed m all el k }) n
    end
  let ghost row_keep (t w t' w': int -> int) (lo hi: int) (g: basicGraph) (m r: vec int) (p: int)
    requires { row_ok t w lo hi g m r p /\ forall i. lo <= i < hi -> t i = t' i /\ w i = w' i }
    ensures { row_ok t' w' lo hi g m r p }
  = let lemma f (q: int -> bool) ensures { psum t w q lo hi = psum t' w' q lo hi } = psum_same t w t' w' q lo hi 0 in ()
  (* ids handed out so far = marked roots *)
  let rec ghost function marked (part: int -> int) (n: int) : int
    variant { n }
  = if n <= 0 then 0 else marked part (n - 1) + (if part (n - 1) <> 0xffffffff then 1 else 0)
  let rec ghost marked_set (p q: int -> int) (i n: int)
    requires { 0 <= i < n /\ p i = 0xffffffff /\ q i <> 0xffffffff /\ (forall j. 0 <= j < n -> j <> i -> p j = q j) } variant { n }
    ensures { marked q n = marked p n + 1 }
  = if n - 1 > i then marked_set p q i (n - 1) else marked_same p q (n - 1)
  with ghost marked_same (p q: int -> int) (n: int)
    requires { forall j. 0 <= j < n -> p j = q j } variant { n }
    ensures { marked q n = marked p n }
  = if n > 0 then marked_same p q (n - 1)
  let rec ghost marked_roots (part p: int -> int) (n: int)
    requires { 0 <= n /\ forall i. 0 <= i < n -> part i <> 0xffffffff -> p i = i } variant { n }
    ensures { 0 <= marked part n <= nroots p n }
    ensures { (exists i. 0 <= i < n /\ part i = 0xffffffff /\ p i = i) -> marked part n < nroots p n }
    ensures { (forall i. 0 <= i < n -> p i = i -> part i <> 0xffffffff) -> marked part n = nroots p n }
  = if n > 0 then marked_roots part p (n - 1)
  (* the groups are the classes of the union-find *)
  predicate classes (g: basicGraph) (m: vec int) (u: union_find) =
    forall x y. 0 <= x < nn g -> 0 <= y < nn g -> (m[x] = m[y] <-> u.rep x = u.rep y)
  predicate nonempty (rm: vec (vec int)) = forall p. 0 <= p < length rm -> 0 < length rm[p]
  (* h is g contracted along the classes of u; if the cut is saved, every vertex knows its group *)
  (* groups are numbered in the order of their first vertices *)
  predicate isfirst (r: int -> int) (x: int) = forall y. 0 <= y < x -> r y <> r x
  let rec ghost function firsts (r: int -> int) (n: int) : int
    variant { n }
  = if n <= 0 then 0 else firsts r (n - 1) + (pure { if isfirst r (n - 1) then 1 else 0 })
  predicate along (h g: basicGraph) (u: union_find) (m: vec int) (rm: vec (vec int)) (pos: int -> int) =
    grouping g m rm pos /\ nonempty rm /\ length rm = u.m_n /\ classes g m u /\ contracts h g m rm /\
      (forall v. 0 <= v < nn g -> isfirst u.rep v -> m[v] = firsts u.rep v) /\
      (cfg_save_cut -> forall v. 0 <= v < nn g -> g.m_refinement_node_props[v].f_partitionIndex = m[v])
  (* marks a witness, so that solvers find it *)
  let rec ghost function wit (m: vec int) (rm: vec (vec int)) (pos: int -> int) (n: int) : int
    variant { n } ensures { result = 0 } = if n <= 0 then 0 else wit m rm pos (n - 1)
  predicate contracted_classes (h g: basicGraph) (u: union_find) = exists m rm pos. wit m rm pos 0 = 0 /\ along h g u m rm pos
  let ghost pack (h g: basicGraph) (u: union_find) (m: vec int) (rm: vec (vec int)) (pos: int -> int)
    requires { along h g u m rm pos } ensures { contracted_classes h g u } = assert { wit m rm pos 0 = 0 }
  let rec ghost marked_none (p: int -> int) (n: int)
    requires { forall j. 0 <= j < n -> p j = 0xffffffff } variant { n }
    ensures { marked p n = 0 }
  = if n > 0 then marked_none p (n - 1)
}}}

assume fn configuration::getConfig as cfg_get
  ensures result.f_save_cut = cfg_save_cut
  reason the configuration singleton is not modified during a call

fn contraction::contractGraphSparse sig "~graph_access" as ct_sparse(g, mapping, rm)
  ghostparam pos : int -> int
  requires wf g /\ grouping g.f_graphref mapping rm pos
  ensures g = old g
  ensures wf result /\ contracts result.f_graphref g.f_graphref mapping rm
  at_entry let ghost gr = pure { g.f_graphref } in let ghost n0 = pure { nn g.f_graphref } in
    let ghost ref cf = pure { g.f_graphref } in let ghost ref st = pure { fun (_:int) -> 0 } in
    psum_ones (pure { tgf gr }) 0 (pure { length gr.m_edges });
    psum_all gr 0 (pure { length gr.m_edges });
    msum_total gr (pure { ones }) (pure { all }) (pure { before mapping pos 0 0 }) n0;
    msum_total gr (pure { wtf gr }) (pure { all }) (pure { before mapping pos 0 0 }) n0
  at_exit begin
      let ghost cr = pure { $result.f_graphref } in
      assert { forall v. 0 <= v <= length rm -> first cr v = st v };
      let lemma rows (v: int) requires { 0 <= v < length rm }
        ensures { row_ok (tgf cr) (wtf cr) (st v) (st (v + 1)) gr mapping rm[v] v }
        = row_keep (pure { tgf cf }) (pure { wtf cf }) (pure { tgf cr }) (pure { wtf cr }) (pure { st v }) (pure { st (v + 1) }) gr mapping (pure { rm[v] }) v in
      () end
  loop 1
    invariant 0 <= p <= length rm /\ length weights = length rm
    invariant gbuilding contracted /\ nn contracted.f_graphref = length rm /\ contracted.f_graphref.f_node = p
    invariant st 0 = 0 /\ st p = length contracted.f_graphref.m_edges /\ contracted.f_graphref.m_last_source < p
    invariant forall u v. 0 <= u <= v <= p -> 0 <= st u <= st v
    invariant forall v. 0 <= v <= contracted.f_graphref.m_last_source -> first contracted.f_graphref v = st v
    invariant forall v. contracted.f_graphref.m_last_source < v <= p -> st v = st p
    invariant forall v. 0 <= v < p -> row_ok (tgf contracted.f_graphref) (wtf contracted.f_graphref) (st v) (st (v + 1)) gr mapping rm[v] v
    invariant length contracted.f_graphref.m_edges <= msum gr ones all (before mapping pos p 0) n0
    invariant esum contracted.f_graphref.m_edges 0 (st p) <= msum gr (wtf gr) all (before mapping pos p 0) n0
    variant length rm - p
    after begin
      msum_total gr (pure { wtf gr }) (pure { all }) (pure { before mapping pos p 0 }) n0;
      cf <- (pure { contracted.f_graphref }) end
    begin let ghost c0 = pure { contracted.f_graphref } in let ghost r = pure { rm[p] } in ()
  loop 2
    invariant 0 <= node <= length rm[p]
    invariant forall q. edge_positions.smem q -> 0 <= q < length rm /\ q <> p /\ weights[q] = gsum gr (wtf gr) r (eqm mapping q) node
                /\ 1 <= gsum gr ones r (eqm mapping q) node
    invariant forall q. not edge_positions.smem q -> q <> p -> gsum gr (wtf gr) r (eqm mapping q) node = 0
    invariant forall j e. 0 <= j < node -> first gr r[j] <= e < last gr r[j] -> wtf gr e = 0 \/ mapping[tgf gr e] = p \/ edge_positions.smem (mapping[tgf gr e])
    invariant msum gr ones all (before mapping pos p node) n0 = msum gr ones all (before mapping pos p 0) n0 + gsum gr ones r all node
    invariant msum gr (wtf gr) all (before mapping pos p node) n0 = msum gr (wtf gr) all (before mapping pos p 0) n0 + gsum gr (wtf gr) r all node
    variant length rm[p] - node
    begin let ghost v = pure { r[node] } in let ghost hi = pure { last gr v } in let ghost f = pure { first gr v } in
      let ghost vfull = pure { vsum gr (wtf gr) all v } in
      msum_add gr (pure { ones }) (pure { all }) (pure { before mapping pos p node }) (pure { before mapping pos p (node + 1) }) v n0;
      msum_add gr (pure { wtf gr }) (pure { all }) (pure { before mapping pos p node }) (pure { before mapping pos p (node + 1) }) v n0;
      msum_total gr (pure { ones }) (pure { all }) (pure { before mapping pos p (node + 1) }) n0;
      msum_total gr (pure { wtf gr }) (pure { all }) (pure { before mapping pos p (node + 1) }) n0;
      msum_total gr (pure { wtf gr }) (pure { all }) (pure { before mapping pos p 0 }) n0;
      assert { gsum gr (wtf gr) r all node + vfull <= umax };
      let ghost node0 = pure { node } in ()
    end begin
      assert { forall e. first gr r[node0] <= e < last gr r[node0] -> wtf gr e = 0 \/ mapping[tgf gr e] = p \/ edge_positions.smem (mapping[tgf gr e]) };
      assert { forall j e. 0 <= j < node0 -> first gr r[j] <= e < last gr r[j] -> wtf gr e = 0 \/ mapping[tgf gr e] = p \/ edge_positions.smem (mapping[tgf gr e]) } end
  loop 3
    invariant f <= $3 <= hi
    invariant forall q. edge_positions.smem q -> 0 <= q < length rm /\ q <> p
                /\ weights[q] = gsum gr (wtf gr) r (eqm mapping q) node + psum (tgf gr) (wtf gr) (eqm mapping q) f $3
                /\ 1 <= gsum gr ones r (eqm mapping q) node + psum (tgf gr) ones (eqm mapping q) f $3
    invariant forall q. not edge_positions.smem q -> q <> p -> gsum gr (wtf gr) r (eqm mapping q) node + psum (tgf gr) (wtf gr) (eqm mapping q) f $3 = 0
    invariant forall j e. 0 <= j < node -> first gr r[j] <= e < last gr r[j] -> wtf gr e = 0 \/ mapping[tgf gr e] = p \/ edge_positions.smem (mapping[tgf gr e])
    invariant forall e. f <= e < $3 -> wtf gr e = 0 \/ mapping[tgf gr e] = p \/ edge_positions.smem (mapping[tgf gr e])
    variant hi - $3
    begin assert { wtf gr $3 = gr.m_edges[$3].f_weight /\ tgf gr $3 = gr.m_edges[$3].f_target };
      let ghost x1 = pure { $3 } in
      assert { wtf gr x1 = 0 \/ mapping[tgf gr x1] = p ->
         forall e. f <= e <= x1 -> wtf gr e = 0 \/ mapping[tgf gr e] = p \/ edge_positions.smem (mapping[tgf gr e]) };
      let ghost q0 = pure { mapping[tgf gr $3] } in let ghost x0 = pure { $3 } in
      gsum_le gr (pure { wtf gr }) r (pure { eqm mapping q0 }) (pure { all }) node;
      gsum_le gr (pure { ones }) r (pure { eqm mapping q0 }) (pure { all }) node;
      psum_le (pure { tgf gr }) (pure { wtf gr }) (pure { eqm mapping q0 }) (pure { all }) f x0;
      psum_le (pure { tgf gr }) (pure { ones }) (pure { eqm mapping q0 }) (pure { all }) f x0;
      psum_le (pure { tgf gr }) (pure { wtf gr }) (pure { eqm mapping q0 }) (pure { all }) f (x0 + 1);
      psum_split (pure { tgf gr }) (pure { wtf gr }) (pure { all }) f (x0 + 1) hi;
      psum_le (pure { tgf gr }) (pure { wtf gr }) (pure { all }) (pure { all }) (x0 + 1) hi;
      assert { gsum gr (wtf gr) r (eqm mapping q0) node + psum (tgf gr) (wtf gr) (eqm mapping q0) f x0 + wtf gr x0 <= umax };
      assert { forall q. psum (tgf gr) (wtf gr) (eqm mapping q) f (x0 + 1) = psum (tgf gr) (wtf gr) (eqm mapping q) f x0 + (if q = q0 then wtf gr x0 else 0) };
      assert { forall q. psum (tgf gr) ones (eqm mapping q) f (x0 + 1) = psum (tgf gr) ones (eqm mapping q) f x0 + (if q = q0 then 1 else 0) }
  loop 4
    before list_count gr r mapping (pure { $E4 }) (pure { length $E4 }) (pure { length r });
      gsum_le gr (pure { ones }) r (pure { listed mapping all $E4 (length $E4) }) (pure { all }) (pure { length r });
      msum_same gr (pure { ones }) (pure { all }) (pure { before mapping pos p (length r) }) (pure { before mapping pos (p + 1) 0 }) n0;
      msum_same gr (pure { wtf gr }) (pure { all }) (pure { before mapping pos p (length r) }) (pure { before mapping pos (p + 1) 0 }) n0;
      msum_total gr (pure { ones }) (pure { all }) (pure { before mapping pos (p + 1) 0 }) n0;
      msum_total gr (pure { wtf gr }) (pure { all }) (pure { before mapping pos (p + 1) 0 }) n0;
      assert { st p + length $E4 <= 0xffffffff }
    invariant 0 <= $4 <= length $E4
    invariant gbuilding contracted /\ nn contracted.f_graphref = length rm /\ contracted.f_graphref.f_node = p + 1
    invariant contracted.f_graphref.m_last_source <= p /\ length contracted.f_graphref.m_edges = st p + $4
    invariant forall v. 0 <= v <= contracted.f_graphref.m_last_source -> first contracted.f_graphref v = st v
    invariant forall v. contracted.f_graphref.m_last_source < v <= p -> st v = st p
    invariant $4 > 0 -> contracted.f_graphref.m_last_source = p
    invariant $4 = 0 -> contracted.f_graphref.m_last_source < p
    invariant forall e. 0 <= e < st p -> contracted.f_graphref.m_edges[e] = c0.m_edges[e]
    invariant forall i. 0 <= i < $4 -> tgf contracted.f_graphref (st p + i) = $E4[i] /\ wtf contracted.f_graphref (st p + i) = weights[$E4[i]]
    variant length $E4 - $4
    begin let ghost cb = pure { contracted.f_graphref } in ()
    end begin
      assert { length contracted.f_graphref.m_edges = length cb.m_edges + 1 };
      assert { contracted.f_graphref.m_edges = push cb.m_edges (contracted.f_graphref.m_edges[length cb.m_edges]) };
      assert { forall e. 0 <= e < length cb.m_edges -> contracted.f_graphref.m_edges[e] = cb.m_edges[e] } end
    after begin
      let ghost c1 = pure { contracted.f_graphref } in
      let ghost el = pure { $E4 } in let ghost k = pure { length el } in let ghost lr = pure { length r } in let ghost lo = pure { st p } in
      st <- Map.set st (p + 1) (pure { length c1.m_edges });
      let lemma prevrows (v: int) requires { 0 <= v < p }
        ensures { row_ok (tgf c1) (wtf c1) (st v) (st (v + 1)) gr mapping rm[v] v }
        = row_keep (pure { tgf c0 }) (pure { wtf c0 }) (pure { tgf c1 }) (pure { wtf c1 }) (pure { st v }) (pure { st (v + 1) }) gr mapping (pure { rm[v] }) v in
      assert { forall i. 0 <= i < k -> tgf c1 (lo + i) = el[i] /\ wtf c1 (lo + i) = gsum gr (wtf gr) r (eqm mapping el[i]) lr };
      assert { forall e. lo <= e < lo + k -> tgf c1 e = el[e - lo] };
      let lemma cur (q: int -> bool) requires { not (q p) }
        ensures { psum (tgf c1) (wtf c1) q (st p) (st (p + 1)) = gsum gr (wtf gr) r (inm mapping q) lr }
        = list_sum gr (pure { wtf gr }) r mapping el q (pure { tgf c1 }) (pure { wtf c1 }) lo k lr;
          gsum_ext gr (pure { wtf gr }) r (pure { listed mapping q el k }) (pure { inm mapping q }) lr in
      assert { row_ok (tgf c1) (wtf c1) (st p) (st (p + 1)) gr mapping r p };
      cur (pure { fun x -> x <> p });
      psum_all c1 lo (lo + k);
      esum_same (pure { c1.m_edges }) (pure { c0.m_edges }) 0 lo;
      esum_split (pure { c1.m_edges }) 0 lo (lo + k);
      psum_ext (pure { tgf c1 }) (pure { wtf c1 }) (pure { all }) (pure { fun x -> x <> p }) lo (lo + k);
      gsum_le gr (pure { wtf gr }) r (pure { inm mapping (fun x -> x <> p) }) (pure { all }) lr end

fn contraction::contractGraph sig "~graph_access" as ct_graph(g, mapping, rm)
  ghostparam pos : int -> int
  requires wf g /\ grouping g.f_graphref mapping rm pos
  ensures g = old g
  ensures wf result /\ contracts result.f_graphref g.f_graphref mapping rm

fn contraction::fromUnionFind sig "~graph_access" as ct_fromuf(g, uf)
  requires wf g /\ uf_inv uf /\ length uf.m_parent = nn g.f_graphref
  ensures wf g /\ g.f_graphref.m_nodes = (old g).f_graphref.m_nodes /\ g.f_graphref.m_edges = (old g).f_graphref.m_edges
  ensures uf_inv uf /\ uf.rep = (old uf).rep /\ uf.m_n = (old uf).m_n
  ensures wf result /\ contracted_classes result.f_graphref g.f_graphref uf
  at_entry let ghost ref pos = pure { fun (_:int) -> 0 } in let ghost nv = pure { nn g.f_graphref } in
    let ghost ref gm = pure { any_vec } in let ghost ref grm = pure { any_vec2 } in ()
  at_exit begin assert { along $result.f_graphref g.f_graphref uf gm grm pos };
      pack (pure { $result.f_graphref }) (pure { g.f_graphref }) (pure { uf }) gm grm pos end
  loop 1
    before marked_none (pure { elts part }) nv
    invariant 0 <= $1 <= nv /\ length mapping = nv /\ length part = nv /\ length reverse_mapping = uf.m_n
    invariant wf g /\ g.f_graphref.m_nodes = (old g).f_graphref.m_nodes /\ g.f_graphref.m_edges = (old g).f_graphref.m_edges
    invariant uf_inv uf /\ uf.rep = (old uf).rep /\ uf.m_n = (old uf).m_n /\ length uf.m_parent = nv
    invariant current_pid = marked (elts part) nv
    invariant forall i. 0 <= i < nv -> part[i] <> 0xffffffff -> 0 <= part[i] < current_pid /\ uf.rep i = i
    invariant forall i j. 0 <= i < nv -> 0 <= j < nv -> part[i] = part[j] <> 0xffffffff -> i = j
    invariant forall i. 0 <= i < nv -> part[i] <> 0xffffffff -> exists y. 0 <= y < $1 /\ uf.rep y = i
    invariant current_pid = firsts uf.rep $1 /\ forall v. 0 <= v < $1 -> isfirst uf.rep v -> mapping[v] = firsts uf.rep v
    invariant forall v. 0 <= v < $1 -> part[uf.rep v] <> 0xffffffff /\ mapping[v] = part[uf.rep v]
    invariant forall p. 0 <= p < length reverse_mapping -> 0 <= length reverse_mapping[p] <= $1
    invariant forall p. 0 <= p < current_pid -> 0 < length reverse_mapping[p]
    invariant forall v. 0 <= v < $1 -> 0 <= pos v < length reverse_mapping[mapping[v]] /\ reverse_mapping[mapping[v]][pos v] = v
    invariant forall p j. 0 <= p < length reverse_mapping -> 0 <= j < length reverse_mapping[p] ->
        0 <= reverse_mapping[p][j] < $1 /\ mapping[reverse_mapping[p][j]] = p /\ pos (reverse_mapping[p][j]) = j
    invariant cfg_save_cut -> forall v. 0 <= v < $1 -> g.f_graphref.m_refinement_node_props[v].f_partitionIndex = mapping[v]
    variant nv - $1
    begin let ghost p0 = pure { elts part } in let ghost r0 = pure { uf.rep $1 } in let ghost c0 = pure { current_pid } in
      marked_roots p0 (pure { elts uf.m_parent }) nv;
      if pure { part[r0] = 0xffffffff } then begin
        let ghost p1 = pure { Map.set p0 r0 c0 } in
        marked_set p0 p1 r0 nv; marked_roots p1 (pure { elts uf.m_parent }) nv end;
      let ghost n0 = pure { $1 } in ()
    end pos <- Map.set pos n0 (pure { length reverse_mapping[mapping[n0]] - 1 })
    after begin marked_roots (pure { elts part }) (pure { elts uf.m_parent }) nv;
      assert { forall i. 0 <= i < nv -> uf.m_parent[i] = i -> part[i] <> 0xffffffff };
      assert { current_pid = uf.m_n };
      assert { grouping g.f_graphref mapping reverse_mapping pos /\ nonempty reverse_mapping /\ classes g.f_graphref mapping uf };
      gm <- (pure { mapping }); grm <- (pure { reverse_mapping }) end

text {{{
  (* ---- every cut of the contracted graph weighs what the corresponding cut of the original weighs *)
  function cross (side: int -> bool) (v: int) : int -> bool = fun t -> side t <> side v
  function dcut (g: basicGraph) (side: int -> bool) (v: int) : int = vsum g (wtf g) (cross side v) v
  let rec ghost function mcut (g: basicGraph) (side mk: int -> bool) (n: int) : int
    variant { n }
  = if n <= 0 then 0 else mcut g side mk (n - 1) + (pure { if mk (n - 1) then dcut g side (n - 1) else 0 })
  (* twice the weight of the cut in an undirected graph: every edge is stored in both directions *)
  function cutweight (g: basicGraph) (side: int -> bool) : int = mcut g side all (nn g)
  let rec ghost mcut_same (g: basicGraph) (side a b: int -> bool) (n: int)
    requires { forall x. 0 <= x < n -> (a x <-> b x) } variant { n }
    ensures { mcut g side a n = mcut g side b n }
  = if n > 0 then mcut_same g side a b (n - 1)
  let rec ghost mcut_none (g: basicGraph) (side a: int -> bool) (n: int)
    requires { forall x. 0 <= x < n -> not a x } variant { n }
    ensures { mcut g side a n = 0 }
  = if n > 0 then mcut_none g side a (n - 1)
  let rec ghost mcut_add (g: basicGraph) (side a b: int -> bool) (v n: int)
    requires { 0 <= v < n /\ not a v /\ (forall x. 0 <= x < n -> (b x <-> a x \/ x = v)) } variant { n }
    ensures { mcut g side b n = mcut g side a n + dcut g side v }
  = if n - 1 > v then mcut_add g side a b v (n - 1) else mcut_same g side a b (n - 1)
  let rec ghost group_cut (g: basicGraph) (m: vec int) (rm: vec (vec int)) (pos: int -> int) (s: int -> bool) (p k: int)
    requires { grouping g m rm pos /\ 0 <= p < length rm /\ 0 <= k <= length rm[p] } variant { k }
    ensures { mcut g (inm m s) (before m pos p k) (nn g) = mcut g (inm m s) (before m pos p 0) (nn g) + gsum g (wtf g) rm[p] (inm m (cross s p)) k }
  = if k > 0 then begin
      let v = pure { rm[p][k - 1] } in
      group_cut g m rm pos s p (k - 1);
      mcut_add g (pure { inm m s }) (pure { before m pos p (k - 1) }) (pure { before m pos p k }) v (pure { nn g });
      psum_ext (pure { tgf g }) (pure { wtf g }) (pure { cross (inm m s) v }) (pure { inm m (cross s p) }) (pure { first g v }) (pure { last g v })
    end
  let rec ghost all_groups (h g: basicGraph) (m: vec int) (rm: vec (vec int)) (pos: int -> int) (s: int -> bool) (p: int)
    requires { grouping g m rm pos /\ contracts h g m rm /\ 0 <= p <= length rm } variant { p }
    ensures { mcut h s all p = mcut g (inm m s) (before m pos p 0) (nn g) }
  = if p > 0 then begin
      all_groups h g m rm pos s (p - 1);
      group_cut g m rm pos s (p - 1) (pure { length rm[p - 1] });
      mcut_same g (pure { inm m s }) (pure { before m pos p 0 }) (pure { before m pos (p - 1) (length rm[p - 1]) }) (pure { nn g });
      assert { not (cross s (p - 1) (p - 1)) }
    end else mcut_none g (pure { inm m s }) (pure { before m pos 0 0 }) (pure { nn g })
  let ghost cuts_preserved (h g: basicGraph) (m: vec int) (rm: vec (vec int)) (pos: int -> int) (s: int -> bool)
    requires { grouping g m rm pos /\ contracts h g m rm }
    ensures { cutweight h s = cutweight g (inm m s) }
  = all_groups h g m rm pos s (pure { length rm });
    mcut_same g (pure { inm m s }) (pure { all }) (pure { before m pos (length rm) 0 }) (pure { nn g })
}}}

text {{{
  function shifted (s t v: int) : int =
    let last = if s < t then t else s in
    if v = last then (if s < t then s else t) else if v > last then v - 1 else v
  predicate merged_edge (h g: basicGraph) (m: vec int) (rm: vec (vec int)) (pos: int -> int) (s t: int) =
    grouping g m rm pos /\ contracts h g m rm /\ length rm = nn g - 1 /\ forall v. 0 <= v < nn g -> m[v] = shifted s t v
  predicate edge_contracted (h g: basicGraph) (s t: int) = exists m rm pos. wit m rm pos 0 = 0 /\ merged_edge h g m rm pos s t
  let rec ghost firsts_edge (r: int -> int) (s t n k: int)
    requires { 0 <= s < n /\ 0 <= t < n /\ s <> t /\ 0 <= k <= n }
    requires { forall x y. 0 <= x < n -> 0 <= y < n -> (r x = r y <-> x = y \/ (x = s /\ y = t) \/ (x = t /\ y = s)) } variant { k }
    ensures { firsts r k = if k > s /\ k > t then k - 1 else k }
  = if k > 0 then begin firsts_edge r s t n (k - 1);
      assert { k - 1 = (if s < t then t else s) -> r (k - 1) = r (if s < t then s else t) };
      assert { isfirst r (k - 1) <-> not (k - 1 = if s < t then t else s) } end
  let ghost edge_pack (h g: basicGraph) (u: union_find) (s t: int)
    requires { contracted_classes h g u /\ 0 <= s < nn g /\ 0 <= t < nn g /\ s <> t /\ u.m_n = nn g - 1 }
    requires { forall x y. 0 <= x < nn g -> 0 <= y < nn g -> (u.rep x = u.rep y <-> x = y \/ (x = s /\ y = t) \/ (x = t /\ y = s)) }
    ensures { edge_contracted h g s t }
  = let lemma num (k: int) requires { 0 <= k <= nn g } ensures { firsts u.rep k = if k > s /\ k > t then k - 1 else k } = firsts_edge (pure { u.rep }) s t (pure { nn g }) k in
    let lemma fst (k: int) requires { 0 <= k < nn g } ensures { isfirst u.rep k <-> not (k = if s < t then t else s) }
      = assert { k = (if s < t then t else s) -> u.rep k = u.rep (if s < t then s else t) } in
    let lemma one (m: vec int) (rm: vec (vec int)) (pos: int -> int)
      requires { wit m rm pos 0 = 0 /\ along h g u m rm pos } ensures { edge_contracted h g s t }
      = assert { forall v. 0 <= v < nn g -> m[v] = shifted s t v };
        assert { wit m rm pos 0 = 0 /\ merged_edge h g m rm pos s t } in ()
}}}

fn contraction::contractEdge as ct_edge(g, ts, e)
  requires wf g /\ noloops g.f_graphref /\ has_edge g e
  requires forall i. 0 <= i < length ts -> 0 <= ts[i] < nn g.f_graphref
  ensures wf g /\ g.f_graphref.m_nodes = (old g).f_graphref.m_nodes /\ g.f_graphref.m_edges = (old g).f_graphref.m_edges
  ensures wf result.p_qgraph_access_vu32_1
  ensures forall s. is_source g.f_graphref e s -> edge_contracted result.p_qgraph_access_vu32_1.f_graphref g.f_graphref s g.f_graphref.m_edges[e].f_target
  ensures length result.p_qgraph_access_vu32_2 = length ts
  ensures forall s i. is_source g.f_graphref e s -> 0 <= i < length ts ->
      result.p_qgraph_access_vu32_2[i] = shifted s g.f_graphref.m_edges[e].f_target ts[i]
  at_entry let ghost g0 = pure { g.f_graphref } in let ghost t0 = pure { g0.m_edges[e].f_target } in
    let ghost ref s0 = 0 in ()
  after_call getEdgeSource s0 <- $result; assert { forall s. is_source g0 e s -> s = s0 }
  after_call fromUnionFind edge_pack (pure { $result.f_graphref }) (pure { g.f_graphref }) (pure { uf }) s0 t0
  loop 1
    invariant 0 <= $1 <= length ts /\ length terminals_out = $1
    invariant forall i. 0 <= i < $1 -> terminals_out[i] = shifted s0 t0 ts[i]
    variant length ts - $1
