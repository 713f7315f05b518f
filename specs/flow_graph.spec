# flow network: residual adjacency lists with paired reverse edges (data_structure/flow_graph.h)
include data_structure/flow_graph.h
class flow_graph

prelude {{{
  constant fmax : int = 0x7fffffffffffffff
  function nv (g: flow_graph) : int = length g.m_adjacency_lists
  predicate slot (a: vec (vec rEdge)) (v e: int) = 0 <= v < length a /\ 0 <= e < length a[v]
  (* the edge names its own source, and its reverse edge names it *)
  predicate paired (a: vec (vec rEdge)) (v e: int) =
    let r = a[v][e] in
    r.f_source = v /\ 0 <= r.f_target < length a /\ 0 <= r.f_reverse_edge_index < length a[r.f_target] /\
    (let q = a[r.f_target][r.f_reverse_edge_index] in q.f_source = r.f_target /\ q.f_target = v /\ q.f_reverse_edge_index = e) /\
    not (r.f_target = v /\ r.f_reverse_edge_index = e)
  (* capacity inserted at a vertex *)
  let rec ghost function cs (s: vec rEdge) (n: int) : int
    variant { n }
  = if n <= 0 then 0 else cs s (n - 1) + pure { s[n - 1].f_capacity }
  let rec ghost cs_same (s t: vec rEdge) (n: int)
    requires { forall i. 0 <= i < n -> s[i].f_capacity = t[i].f_capacity } variant { n }
    ensures { cs s n = cs t n }
  = if n > 0 then cs_same s t (n - 1)
  predicate wf (g: flow_graph) =
    g.m_num_nodes = nv g < 0x100000000 /\ length g.m_capacity = nv g /\
    (forall v. 0 <= v < nv g -> length g.m_adjacency_lists[v] < 0x1000000000000000) /\
    (forall v e. slot g.m_adjacency_lists v e -> paired g.m_adjacency_lists v e) /\
    (forall v. 0 <= v < nv g -> g.m_capacity[v] = cs g.m_adjacency_lists[v] (length g.m_adjacency_lists[v]))
}}}

fn flow_graph::flow_graph as fg_new
  ensures nv result = 0 /\ result.m_num_nodes = 0 /\ result.m_num_edges = 0 /\ length result.m_capacity = 0

fn flow_graph::start_construction as fg_start(nodes, edges)
  requires nv this = 0 /\ length this.m_capacity = 0 /\ edges < 0x100000000
  ensures wf this /\ nv this = nodes /\ this.m_num_edges = edges
  ensures forall v. 0 <= v < nodes -> length this.m_adjacency_lists[v] = 0 /\ this.m_capacity[v] = 0

fn flow_graph::finish_construction as fg_finish
  ensures this = old this

fn flow_graph::number_of_nodes as fg_n
  requires wf this
  ensures result = nv this

fn flow_graph::number_of_edges as fg_m
  ensures result = this.m_num_edges

fn flow_graph::new_edge as fg_edge(source, target, capacity)
  requires wf this /\ source < nv this /\ target < nv this
  requires length this.m_adjacency_lists[source] < 0x1000000000000000 - 2 /\ length this.m_adjacency_lists[target] < 0x1000000000000000 - 2
  requires - fmax <= this.m_capacity[source] + capacity <= fmax /\ this.m_num_edges < 0xffffffff - 2
  ensures wf this /\ nv this = nv (old this) /\ this.m_num_edges = (old this).m_num_edges + 2
  (* all other edges stay where they are, one edge and its reverse are appended *)
  ensures forall v e. slot (old this).m_adjacency_lists v e -> this.m_adjacency_lists[v][e] = (old this).m_adjacency_lists[v][e]
  ensures forall v. 0 <= v < nv this -> length this.m_adjacency_lists[v] =
     length (old this).m_adjacency_lists[v] + (if v = source then 1 else 0) + (if v = target then 1 else 0)
  ensures let a = this.m_adjacency_lists in
          let e = length (old this).m_adjacency_lists[source] in
          let r = length (old this).m_adjacency_lists[target] + (if source = target then 1 else 0) in
    a[source][e] = { f_source = source ; f_target = target ; f_capacity = capacity ; f_flow = 0 ; f_reverse_edge_index = r } /\
    a[target][r] = { f_source = target ; f_target = source ; f_capacity = 0 ; f_flow = 0 ; f_reverse_edge_index = e }
  ensures forall v. 0 <= v < nv this -> this.m_capacity[v] = (old this).m_capacity[v] + (if v = source then capacity else 0)
  at_exit begin
    let a0 = pure { (old this).m_adjacency_lists } in let a1 = pure { this.m_adjacency_lists } in
    cs_same (pure { a1[source] }) (pure { a0[source] }) (pure { length a0[source] });
    cs_same (pure { a1[target] }) (pure { a0[target] }) (pure { length a0[target] });
    assert { forall v e. slot a0 v e -> a1[v][e] = a0[v][e] };
    assert { forall v e. slot a1 v e -> paired a1 v e };
    assert { forall v. 0 <= v < nv this -> v <> source -> v <> target -> a1[v] = a0[v] } end

fn flow_graph::getEdgeTarget as fg_target(source, e)
  requires slot this.m_adjacency_lists source e
  ensures result = this.m_adjacency_lists[source][e].f_target

fn flow_graph::getEdgeCapacity as fg_ecap(source, e)
  requires slot this.m_adjacency_lists source e
  ensures result = this.m_adjacency_lists[source][e].f_capacity

fn flow_graph::getEdgeFlow as fg_flow(source, e)
  requires slot this.m_adjacency_lists source e
  ensures result = this.m_adjacency_lists[source][e].f_flow

fn flow_graph::setEdgeFlow as fg_setflow(source, e, flow)
  requires wf this /\ slot this.m_adjacency_lists source e
  ensures wf this /\ length this.m_adjacency_lists = length (old this).m_adjacency_lists
  ensures forall v. 0 <= v < nv this -> length this.m_adjacency_lists[v] = length (old this).m_adjacency_lists[v]
  ensures forall v i. slot (old this).m_adjacency_lists v i -> this.m_adjacency_lists[v][i] =
     if v = source /\ i = e then { (old this).m_adjacency_lists[v][i] with f_flow = flow } else (old this).m_adjacency_lists[v][i]
  ensures this = { (old this) with m_adjacency_lists = this.m_adjacency_lists }
  at_exit cs_same (pure { this.m_adjacency_lists[source] }) (pure { (old this).m_adjacency_lists[source] }) (pure { length this.m_adjacency_lists[source] })

fn flow_graph::getReverseEdge as fg_reverse(source, e)
  requires slot this.m_adjacency_lists source e
  ensures result = this.m_adjacency_lists[source][e].f_reverse_edge_index

fn flow_graph::getCapacity as fg_cap(node)
  requires wf this /\ node < nv this
  ensures result = this.m_capacity[node]
  ensures result = cs this.m_adjacency_lists[node] (length this.m_adjacency_lists[node])

fn flow_graph::get_first_edge as fg_first(v)
  ensures result = 0

fn flow_graph::get_first_invalid_edge as fg_last(v)
  requires wf this /\ v < nv this
  ensures result = length this.m_adjacency_lists[v]

text {{{
  (* following the reverse index twice returns to the edge *)
  let involution (ref this: flow_graph) (v e: int)
    requires { wf this /\ slot this.m_adjacency_lists v e }
  = let t = fg_target this v e in let r = fg_reverse this v e in
    let v' = fg_target this t r in let e' = fg_reverse this t r in
    assert { v' = v /\ e' = e /\ not (t = v /\ r = e) }
}}}
