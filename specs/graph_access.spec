# graph_access / basicGraph: static graph in compressed sparse row form
include data_structure/graph_access.h
class basicGraph
class graph_access

prelude {{{
  constant umax : int = 0xffffffffffffffff
  function first (g: basicGraph) (v: int) : int = g.m_nodes[v].f_firstEdge
  function nn (g: basicGraph) : int = length g.m_nodes - 1

  (* sum of the weights of edges lo .. hi-1 *)
  let rec ghost function esum (d: vec edge) (lo hi: int) : int
    requires { lo <= hi } variant { hi - lo }
  = if hi <= lo then 0 else esum d lo (hi - 1) + (pure { d[hi - 1].f_weight })
  let rec lemma esum_same (d f: vec edge) (lo hi: int)
    requires { lo <= hi /\ forall i. lo <= i < hi -> d[i].f_weight = f[i].f_weight } variant { hi - lo }
    ensures { esum d lo hi = esum f lo hi }
  = if lo < hi then esum_same d f lo (hi - 1)
  let rec lemma esum_split (d: vec edge) (lo mid hi: int)
    requires { lo <= mid <= hi } variant { hi - mid }
    ensures { esum d lo hi = esum d lo mid + esum d mid hi }
  = if mid < hi then esum_split d lo mid (hi - 1)
  let rec lemma esum_pos (d: vec edge) (lo hi: int)
    requires { lo <= hi /\ forall i. lo <= i < hi -> 0 <= d[i].f_weight } variant { hi - lo }
    ensures { 0 <= esum d lo hi }
  = if lo < hi then esum_pos d lo (hi - 1)
  let lemma esum_part (d: vec edge) (n lo hi: int)
    requires { 0 <= lo <= hi <= n /\ forall i. 0 <= i < n -> 0 <= d[i].f_weight }
    ensures { 0 <= esum d lo hi <= esum d 0 n }
  = esum_split d 0 lo n; esum_split d lo hi n; esum_pos d 0 lo; esum_pos d lo hi; esum_pos d hi n

  predicate edges_ok (g: basicGraph) =
    length g.m_edges <= 0xffffffff /\
    forall i. 0 <= i < length g.m_edges -> 0 <= g.m_edges[i].f_target < nn g /\ 0 <= g.m_edges[i].f_weight <= umax
  (* offsets of the vertices 0..k are final: they partition the edges stored so far by source, in order *)
  predicate offsets (g: basicGraph) (k: int) =
    first g 0 = 0 /\ forall u v. 0 <= u <= v <= k -> 0 <= first g u <= first g v <= length g.m_edges
  (* a graph under construction: all vertices up to m_last_source have their final edge range *)
  predicate building (g: basicGraph) =
    1 <= length g.m_nodes <= 0x7fffffff /\ edges_ok g /\ length g.m_refinement_node_props = length g.m_nodes /\
    -1 <= g.m_last_source < nn g /\ offsets g (g.m_last_source + 1) /\
    first g (g.m_last_source + 1) = length g.m_edges /\ g.f_e = length g.m_edges /\ 0 <= g.f_node <= nn g
  (* a finished graph *)
  predicate csr (g: basicGraph) =
    1 <= length g.m_nodes <= 0x7fffffff /\ edges_ok g /\ length g.m_refinement_node_props = length g.m_nodes /\
    offsets g (nn g) /\ first g (nn g) = length g.m_edges
  predicate noloops (g: basicGraph) =
    forall v i. 0 <= v < nn g -> first g v <= i < first g (v + 1) -> g.m_edges[i].f_target <> v

  function wdeg (g: basicGraph) (v: int) : int = esum g.m_edges (first g v) (first g (v + 1))
  predicate nowrap (g: basicGraph) = esum g.m_edges 0 (length g.m_edges) <= umax
  (* cached degree values agree with the stored edges *)
  predicate cache_ok (g: graph_access) =
    g.m_degrees_computed -> length g.m_degree = nn g.f_graphref /\
      (forall v. 0 <= v < nn g.f_graphref -> g.m_degree[v] = wdeg g.f_graphref v /\
          g.m_min_degree <= g.m_degree[v] <= g.m_max_degree) /\
      (nn g.f_graphref = 0 -> g.m_min_degree = umax /\ g.m_max_degree = 0) /\
      (nn g.f_graphref > 0 -> (exists v. 0 <= v < nn g.f_graphref /\ g.m_min_degree = wdeg g.f_graphref v) /\
                              (exists v. 0 <= v < nn g.f_graphref /\ g.m_max_degree = wdeg g.f_graphref v))
  predicate wf (g: graph_access) =
    csr g.f_graphref /\ nowrap g.f_graphref /\ length g.m_degree = nn g.f_graphref /\ cache_ok g
  predicate has_vertex (g: graph_access) (v: int) = 0 <= v < nn g.f_graphref
  predicate has_edge (g: graph_access) (e: int) = 0 <= e < length g.f_graphref.m_edges
  predicate gbuilding (g: graph_access) = building g.f_graphref /\ not g.m_degrees_computed
  predicate same_edge (a b: edge) = a.f_target = b.f_target /\ a.f_weight = b.f_weight
  (* exactly the new edge joins the range of its source; every earlier vertex keeps its range; self loops are dropped *)
  predicate added_edge (g o: basicGraph) (source target weight result: int) =
    nn g = nn o /\ g.f_node = o.f_node /\ result = length o.m_edges /\
    (source = target -> g = o) /\
    (source <> target -> g.m_last_source = source /\ g.m_edges = push o.m_edges g.m_edges[result]
       /\ g.m_edges[result].f_target = target /\ g.m_edges[result].f_weight = weight
       /\ (forall v. 0 <= v <= o.m_last_source -> first g v = first o v)
       /\ (forall v. o.m_last_source < v <= source -> first g v = length o.m_edges)
       /\ first g (source + 1) = length o.m_edges + 1)
  predicate finished (g o: basicGraph) =
    nn g = nn o /\ g.m_edges = o.m_edges /\
    (forall v. 0 <= v <= o.m_last_source + 1 -> first g v = first o v) /\
    (forall v. o.m_last_source < v < nn g -> first g (v + 1) = length g.m_edges)
  predicate is_source (g: basicGraph) (e v: int) = 0 <= v < nn g /\ first g v <= e < first g (v + 1)
  predicate reverses (g: basicGraph) (e x: int) =
    let t = g.m_edges[e].f_target in first g t <= x < first g (t + 1) /\ is_source g e (g.m_edges[x].f_target)
  let lemma one_source (g: basicGraph) (e u v: int)
    requires { csr g /\ is_source g e u /\ is_source g e v }
    ensures { u = v }
  = ()
  let lemma degree_part (g: basicGraph) (v: int)
    requires { csr g /\ nowrap g /\ 0 <= v < nn g }
    ensures { forall j. first g v <= j <= first g (v + 1) -> 0 <= esum g.m_edges (first g v) j <= umax }
  = let lemma f (j: int) requires { first g v <= j <= first g (v + 1) } ensures { 0 <= esum g.m_edges (first g v) j <= umax }
      = esum_part (pure { g.m_edges }) (pure { length g.m_edges }) (pure { first g v }) j in ()
}}}

fn basicGraph::start_construction as bg_start(n, m)
  requires n < 0x7fffffff /\ length this.m_edges = 0
  ensures building this /\ nn this = n /\ this.m_last_source = -1 /\ length this.m_edges = 0 /\ this.f_node = 0

fn basicGraph::new_node as bg_node
  requires building this /\ this.f_node < nn this
  ensures building this /\ result = (old this).f_node /\ this = { (old this) with f_node = result + 1 }

fn basicGraph::new_edge sig "#3" as bg_edge(source, target, weight)
  requires building this /\ source < nn this /\ target < nn this /\ this.m_last_source <= source
  requires length this.m_edges < 0xffffffff
  ensures building this
  ensures added_edge this (old this) source target weight result
  loop 1
    invariant (old this).m_last_source + 1 <= $1 <= source
    invariant first this (source + 1) = length (old this).m_edges + 1
    invariant forall v. 0 <= v <= (old this).m_last_source + 1 -> first this v = first (old this) v
    invariant forall v. $1 < v <= source -> first this v = length (old this).m_edges
    variant $1

fn basicGraph::finish_construction as bg_finish
  requires building this /\ this.f_node = nn this
  ensures csr this /\ finished this (old this)
  loop 1
    invariant this.m_last_source + 1 <= $1 <= nn this
    invariant forall v. 0 <= v <= this.m_last_source + 1 -> first this v = first (old this) v
    invariant forall v. $1 < v <= nn this -> first this v = length this.m_edges
    variant $1

fn basicGraph::resize_m as bg_resize(m)
  requires length this.m_edges <= m <= 0xffffffff
  ensures this = { (old this) with m_edges = this.m_edges } /\ length this.m_edges = m
  ensures forall i. 0 <= i < length (old this).m_edges -> this.m_edges[i] = (old this).m_edges[i]

fn basicGraph::new_node_hacky as bg_hackynode(e)
  requires 0 <= this.f_node < nn this <= 0x7fffffff /\ -1 <= this.m_last_source < 0x7ffffffe
  ensures result = (old this).f_node + 1 /\ this.f_node = result /\ this.m_last_source = (old this).m_last_source + 1
  ensures nn this = nn (old this) /\ first this result = e /\ this.m_edges = (old this).m_edges
  ensures forall v. 0 <= v <= nn this -> v <> result -> this.m_nodes[v] = (old this).m_nodes[v]

fn basicGraph::new_edge_and_reverse as bg_hackyedge(source, target, e_for, e_rev, wgt)
  requires 0 <= e_for < length this.m_edges /\ 0 <= e_rev < length this.m_edges /\ e_for <> e_rev /\ this.f_e <= 0xffffffff
  ensures this.m_nodes = (old this).m_nodes /\ length this.m_edges = length (old this).m_edges
  ensures this.m_edges[e_for].f_target = target /\ this.m_edges[e_for].f_weight = wgt
  ensures this.m_edges[e_rev].f_target = source /\ this.m_edges[e_rev].f_weight = wgt
  ensures forall i. i <> e_for -> i <> e_rev -> this.m_edges[i] = (old this).m_edges[i]

fn graph_access::number_of_nodes as ga_n
  requires 1 <= length this.f_graphref.m_nodes <= 0x7fffffff
  ensures result = nn this.f_graphref

fn graph_access::number_of_edges as ga_m
  ensures result = length this.f_graphref.m_edges

fn graph_access::get_first_edge as ga_first(v)
  requires csr this.f_graphref /\ has_vertex this v
  ensures result = first this.f_graphref v

fn graph_access::get_first_invalid_edge as ga_last(v)
  requires csr this.f_graphref /\ has_vertex this v
  ensures result = first this.f_graphref (v + 1)

fn graph_access::getUnweightedNodeDegree as ga_udeg(v)
  requires csr this.f_graphref /\ has_vertex this v
  ensures result = first this.f_graphref (v + 1) - first this.f_graphref v

fn graph_access::getEdgeTarget sig "#1" as ga_target(e)
  requires has_edge this e
  ensures result = this.f_graphref.m_edges[e].f_target

fn graph_access::getEdgeWeight sig "#1" as ga_weight(e)
  requires has_edge this e
  ensures result = this.f_graphref.m_edges[e].f_weight

fn graph_access::setEdgeWeight as ga_setweight(e, w)
  requires has_edge this e
  ensures this.f_graphref = { (old this).f_graphref with m_edges = (old this).f_graphref.m_edges[e <- this.f_graphref.m_edges[e]] }
  ensures this.f_graphref.m_edges[e] = { (old this).f_graphref.m_edges[e] with f_weight = w }
  ensures gbuilding (old this) -> gbuilding this
  (* degrees reported afterwards are those of the new weights *)
  ensures wf (old this) -> nowrap this.f_graphref -> wf this

fn graph_access::getWeightedNodeDegree as ga_wdeg(v)
  requires wf this /\ has_vertex this v
  ensures result = wdeg this.f_graphref v
  at_entry degree_part (pure { this.f_graphref }) v
  loop 1
    invariant first this.f_graphref v <= $1 <= first this.f_graphref (v + 1)
    invariant degree = esum this.f_graphref.m_edges (first this.f_graphref v) $1
    variant first this.f_graphref (v + 1) - $1

fn graph_access::computeDegrees as ga_degrees
  requires wf this
  ensures wf this /\ this.m_degrees_computed /\ this.f_graphref = (old this).f_graphref
  loop 1
    invariant 0 <= $1 <= nn this.f_graphref
    invariant not this.m_degrees_computed
    invariant forall v. 0 <= v < $1 -> this.m_degree[v] = wdeg this.f_graphref v /\ this.m_min_degree <= this.m_degree[v] <= this.m_max_degree
    invariant $1 = 0 -> this.m_min_degree = umax /\ this.m_max_degree = 0
    invariant $1 > 0 -> (exists v. 0 <= v < $1 /\ this.m_min_degree = wdeg this.f_graphref v)
                     /\ (exists v. 0 <= v < $1 /\ this.m_max_degree = wdeg this.f_graphref v)
    variant nn this.f_graphref - $1
    begin degree_part (pure { this.f_graphref }) (pure { $1 })
  loop 2
    invariant first this.f_graphref node <= $2 <= first this.f_graphref (node + 1)
    invariant cur_degree = esum this.f_graphref.m_edges (first this.f_graphref node) $2
    variant first this.f_graphref (node + 1) - $2

fn graph_access::getMinDegree as ga_min
  requires wf this
  ensures wf this /\ this.f_graphref = (old this).f_graphref
  ensures forall v. has_vertex this v -> result <= wdeg this.f_graphref v
  ensures nn this.f_graphref > 0 -> exists v. has_vertex this v /\ result = wdeg this.f_graphref v

fn graph_access::getMaxDegree as ga_max
  requires wf this
  ensures wf this /\ this.f_graphref = (old this).f_graphref
  ensures forall v. has_vertex this v -> result >= wdeg this.f_graphref v
  ensures nn this.f_graphref > 0 -> exists v. has_vertex this v /\ result = wdeg this.f_graphref v

fn graph_access::sumOfEdgeWeights as ga_sum
  requires wf this
  ensures wf this /\ this.f_graphref = (old this).f_graphref
  ensures result = esum this.f_graphref.m_edges 0 (length this.f_graphref.m_edges)
  loop 1
    invariant 0 <= $1 <= nn this.f_graphref
    invariant sum_weights = esum this.f_graphref.m_edges 0 (first this.f_graphref $1)
    variant nn this.f_graphref - $1
    begin esum_split (pure { this.f_graphref.m_edges }) 0 (pure { first this.f_graphref $1 }) (pure { first this.f_graphref ($1 + 1) });
          esum_part (pure { this.f_graphref.m_edges }) (pure { length this.f_graphref.m_edges }) 0 (pure { first this.f_graphref ($1 + 1) })

fn graph_access::getEdgeSource as ga_source(e)
  requires csr this.f_graphref /\ has_edge this e
  ensures has_vertex this result /\ first this.f_graphref result <= e < first this.f_graphref (result + 1)

fn graph_access::find_reverse_edge as ga_reverse(e)
  requires csr this.f_graphref /\ has_edge this e
  ensures this = old this
  (* an edge from the target back to the source, if there is one *)
  ensures result <> umax -> reverses this.f_graphref e result
  ensures result = umax -> forall x. not reverses this.f_graphref e x
  loop 1
    invariant first this.f_graphref tgt <= $1 <= first this.f_graphref (tgt + 1)
    invariant e_rev = umax
    invariant forall x. first this.f_graphref tgt <= x < $1 -> this.f_graphref.m_edges[x].f_target <> src
    variant first this.f_graphref (tgt + 1) - $1

fn graph_access::getMaxUnweightedDegree as ga_maxu
  requires wf this
  ensures this = old this
  ensures forall v. has_vertex this v -> result >= first this.f_graphref (v + 1) - first this.f_graphref v
  loop 1
    invariant 0 <= $1 <= nn this.f_graphref
    invariant forall v. 0 <= v < $1 -> deg >= first this.f_graphref (v + 1) - first this.f_graphref v
    variant nn this.f_graphref - $1


fn graph_access::start_construction as ga_start(n, m)
  requires n < 0x7fffffff /\ length this.f_graphref.m_edges = 0
  ensures gbuilding this /\ nn this.f_graphref = n /\ this.f_graphref.m_last_source = -1
  ensures length this.f_graphref.m_edges = 0 /\ this.f_graphref.f_node = 0

fn graph_access::new_node as ga_node
  requires gbuilding this /\ this.f_graphref.f_node < nn this.f_graphref
  ensures gbuilding this /\ result = (old this).f_graphref.f_node
  ensures this.f_graphref = { (old this).f_graphref with f_node = result + 1 }

fn graph_access::new_edge sig "#3" as ga_edge(source, target, weight)
  requires gbuilding this /\ source < nn this.f_graphref /\ target < nn this.f_graphref /\ this.f_graphref.m_last_source <= source
  requires length this.f_graphref.m_edges < 0xffffffff
  ensures gbuilding this /\ added_edge this.f_graphref (old this).f_graphref source target weight result

fn graph_access::new_edge sig "#2" as ga_edge1(source, target)
  requires gbuilding this /\ source < nn this.f_graphref /\ target < nn this.f_graphref /\ this.f_graphref.m_last_source <= source
  requires length this.f_graphref.m_edges < 0xffffffff
  ensures gbuilding this /\ added_edge this.f_graphref (old this).f_graphref source target 1 result

fn graph_access::finish_construction as ga_finish
  requires gbuilding this /\ this.f_graphref.f_node = nn this.f_graphref /\ nowrap this.f_graphref
  ensures wf this /\ finished this.f_graphref (old this).f_graphref

fn graph_access::getPartitionIndex as ga_getpart(v)
  requires csr this.f_graphref /\ has_vertex this v
  ensures result = this.f_graphref.m_refinement_node_props[v].f_partitionIndex

fn graph_access::setPartitionIndex as ga_setpart(v, id)
  requires wf this /\ has_vertex this v
  ensures wf this /\ this.f_graphref.m_nodes = (old this).f_graphref.m_nodes /\ this.f_graphref.m_edges = (old this).f_graphref.m_edges
  ensures this.f_graphref.m_refinement_node_props[v].f_partitionIndex = id
  ensures forall x. x <> v -> this.f_graphref.m_refinement_node_props[x] = (old this).f_graphref.m_refinement_node_props[x]

fn graph_access::getNodeInCut as ga_getcut(v)
  requires csr this.f_graphref /\ has_vertex this v
  ensures result <-> this.f_graphref.m_nodes[v].f_in_cut

fn graph_access::setNodeInCut as ga_setcut(v, c)
  requires wf this /\ has_vertex this v
  ensures wf this /\ this.f_graphref.m_edges = (old this).f_graphref.m_edges
  ensures forall x. first this.f_graphref x = first (old this).f_graphref x
  ensures this.f_graphref.m_nodes[v].f_in_cut <-> c
  ensures forall x. x <> v -> this.f_graphref.m_nodes[x] = (old this).f_graphref.m_nodes[x]

fn graph_access::copy as ga_copy
  requires wf this /\ noloops this.f_graphref
  ensures this = old this
  ensures wf result /\ nn result.f_graphref = nn this.f_graphref /\ length result.f_graphref.m_edges = length this.f_graphref.m_edges
  ensures forall v. 0 <= v <= nn this.f_graphref -> first result.f_graphref v = first this.f_graphref v
  ensures forall e. 0 <= e < length this.f_graphref.m_edges -> same_edge result.f_graphref.m_edges[e] this.f_graphref.m_edges[e]
  loop 1
    invariant 0 <= $1 <= nn this.f_graphref
    invariant gbuilding c_G_bar /\ nn c_G_bar.f_graphref = nn this.f_graphref
    invariant c_G_bar.f_graphref.f_node = $1 /\ c_G_bar.f_graphref.m_last_source < $1
    invariant length c_G_bar.f_graphref.m_edges = first this.f_graphref $1
    invariant forall e. 0 <= e < length c_G_bar.f_graphref.m_edges -> same_edge c_G_bar.f_graphref.m_edges[e] this.f_graphref.m_edges[e]
    invariant forall u. 0 <= u <= c_G_bar.f_graphref.m_last_source + 1 -> first c_G_bar.f_graphref u = first this.f_graphref u
    invariant forall u. c_G_bar.f_graphref.m_last_source < u <= $1 -> u > 0 -> u > c_G_bar.f_graphref.m_last_source + 1 -> first this.f_graphref u = length c_G_bar.f_graphref.m_edges
    variant nn this.f_graphref - $1
    after esum_same (pure { c_G_bar.f_graphref.m_edges }) (pure { this.f_graphref.m_edges }) 0 (pure { length this.f_graphref.m_edges })
  loop 2
    invariant first this.f_graphref node <= $2 <= first this.f_graphref (node + 1)
    invariant gbuilding c_G_bar /\ nn c_G_bar.f_graphref = nn this.f_graphref
    invariant c_G_bar.f_graphref.f_node = node + 1 /\ c_G_bar.f_graphref.m_last_source <= node
    invariant c_G_bar.f_graphref.m_last_source < node -> $2 = first this.f_graphref node
    invariant length c_G_bar.f_graphref.m_edges = $2
    invariant forall e. 0 <= e < length c_G_bar.f_graphref.m_edges -> same_edge c_G_bar.f_graphref.m_edges[e] this.f_graphref.m_edges[e]
    invariant forall u. 0 <= u <= c_G_bar.f_graphref.m_last_source + 1 -> u <= node -> first c_G_bar.f_graphref u = first this.f_graphref u
    invariant forall u. c_G_bar.f_graphref.m_last_source + 1 < u <= node -> first this.f_graphref u = length c_G_bar.f_graphref.m_edges
    variant first this.f_graphref (node + 1) - $2

text {{{
  (* A client that builds a graph from an arbitrary edge list grouped by ascending
     source gets back exactly that list: edge i keeps source, target and weight. *)
  let client_build (ref g: graph_access) (n m: int) (s t w: int -> int)
    requires { 0 <= n < 0x7fffffff /\ 0 <= m <= 0xffffffff /\ length g.f_graphref.m_edges = 0 }
    requires { forall i. 0 <= i < m -> 0 <= s i < n /\ 0 <= t i < n /\ s i <> t i /\ 0 <= w i <= umax }
    requires { forall i j. 0 <= i <= j < m -> s i <= s j }
    requires { forall d: vec edge. (forall i. 0 <= i < m -> d[i].f_weight = w i) -> esum d 0 m <= umax }
    ensures { wf g /\ nn g.f_graphref = n /\ length g.f_graphref.m_edges = m }
    ensures { forall i. 0 <= i < m -> g.f_graphref.m_edges[i].f_target = t i /\ g.f_graphref.m_edges[i].f_weight = w i }
    ensures { forall i v. 0 <= i < m -> 0 <= v < n -> (first g.f_graphref v <= i < first g.f_graphref (v + 1) <-> s i = v) }
  = ga_start &g n m;
    for k = 0 to n - 1 do
      invariant { gbuilding g /\ nn g.f_graphref = n /\ g.f_graphref.f_node = k /\ length g.f_graphref.m_edges = 0 /\ g.f_graphref.m_last_source = -1 }
      let _ = ga_node &g in ()
    done;
    let ref i = 0 in
    while i < m do
      invariant { 0 <= i <= m /\ gbuilding g /\ nn g.f_graphref = n /\ g.f_graphref.f_node = n /\ length g.f_graphref.m_edges = i }
      invariant { g.f_graphref.m_last_source = (if i = 0 then -1 else s (i - 1)) }
      invariant { forall j. 0 <= j < i -> g.f_graphref.m_edges[j].f_target = t j /\ g.f_graphref.m_edges[j].f_weight = w j }
      invariant { forall j v. 0 <= j < i -> 0 <= v <= g.f_graphref.m_last_source + 1 -> (s j < v <-> j < first g.f_graphref v) }
      variant { m - i }
      let _ = ga_edge &g (s i) (t i) (w i) in
      i <- i + 1
    done;
    ga_finish &g
}}}
