# fifo_node_bucket_pq: bucket queue with first-in-first-out buckets over node ids < num_nodes, keys 0..span
include data_structure/priority_queues/fifo_node_bucket_pq.h
class fifo_node_bucket_pq

prelude {{{
  constant undef : int = 0xffffffffffffffff

  (* number of stored elements in buckets [0, n) *)
  let rec ghost function total (b: int -> vec int) (n: int) : int
    requires { 0 <= n } variant { n }
  = if n = 0 then 0 else total b (n - 1) + length (b (n - 1))

  let rec lemma total_upd (b: int -> vec int) (i: int) (v: vec int) (n: int)
    requires { 0 <= n } variant { n }
    ensures { total (Map.set b i v) n = total b n + (if 0 <= i < n then length v - length (b i) else 0) }
  = if n > 0 then total_upd b i v (n - 1)

  let rec lemma total_zero (b: int -> vec int) (n: int)
    requires { 0 <= n /\ forall i. 0 <= i < n -> length (b i) = 0 } variant { n }
    ensures { total b n = 0 }
  = if n > 0 then total_zero b (n - 1)

  let rec lemma total_ge (b: int -> vec int) (n i: int)
    requires { 0 <= i < n /\ forall j. 0 <= j < n -> length (b j) >= 0 } variant { n }
    ensures { total b n >= length (b i) }
  = let rec lemma nonneg (m: int) requires { 0 <= m <= n } variant { m } ensures { total b m >= 0 }
      = if m > 0 then nonneg (m - 1) in
    if i < n - 1 then total_ge b (n - 1) i else nonneg (n - 1)

  predicate held (q: fifo_node_bucket_pq) (x: int) =
    0 <= x < length q.m_queue_index /\ q.m_queue_index[x].p_u64_u32_1 <> undef
  function key (q: fifo_node_bucket_pq) (x: int) : int = q.m_queue_index[x].p_u64_u32_2

  predicate wf (q: fifo_node_bucket_pq) =
    0 <= q.m_gain_span <= 0x3fffffff /\ length q.m_buckets = 2 * q.m_gain_span + 1 /\ length q.m_bucket_offset = length q.m_buckets /\
    (forall a. 0 <= a < length q.m_buckets -> 0 <= q.m_bucket_offset[a] <= 0x4000000000000000) /\
    0 <= length q.m_queue_index <= 0xffffffff /\
    (forall a. 0 <= a < length q.m_buckets -> 0 <= length q.m_buckets[a] <= 0xffffffff) /\
    (forall a j. 0 <= a < length q.m_buckets -> 0 <= j < length q.m_buckets[a] ->
       0 <= q.m_buckets[a][j] < length q.m_queue_index /\
       q.m_queue_index[q.m_buckets[a][j]].p_u64_u32_1 = j + q.m_bucket_offset[a] /\
       q.m_queue_index[q.m_buckets[a][j]].p_u64_u32_2 + q.m_gain_span = a) /\
    (forall x. held q x -> 0 <= key q x <= q.m_gain_span /\
       0 <= q.m_queue_index[x].p_u64_u32_1 - q.m_bucket_offset[key q x + q.m_gain_span] < length q.m_buckets[key q x + q.m_gain_span] /\
       q.m_buckets[key q x + q.m_gain_span][q.m_queue_index[x].p_u64_u32_1 - q.m_bucket_offset[key q x + q.m_gain_span]] = x) /\
    0 <= q.m_max_idx < length q.m_buckets /\
    (forall a. q.m_max_idx < a < length q.m_buckets -> length q.m_buckets[a] = 0) /\
    (length q.m_buckets[q.m_max_idx] = 0 -> q.m_max_idx = 0) /\
    q.m_elements <= 0xffffffff /\ q.m_elements = total (elts q.m_buckets) (length q.m_buckets)

  (* 64-bit offset counters: fewer than 2^62 removals per bucket *)
  predicate small (q: fifo_node_bucket_pq) =
    forall a. 0 <= a < length q.m_buckets -> q.m_bucket_offset[a] < 0x4000000000000000
  (* what a client may rely on for the maximum *)
  predicate is_max (q: fifo_node_bucket_pq) (x: int) =
    held q x /\ forall y. held q y -> key q y <= key q x
  (* a queue with elements has a non-empty top bucket, holding a maximum *)
  let lemma nonempty (q: fifo_node_bucket_pq)
    requires { wf q /\ q.m_elements > 0 }
    ensures { length q.m_buckets[q.m_max_idx] > 0 /\ q.m_max_idx >= q.m_gain_span }
    ensures { is_max q (q.m_buckets[q.m_max_idx][0]) }
  = if pure { length q.m_buckets[q.m_max_idx] <= 0 } then total_zero (pure { elts q.m_buckets }) (pure { length q.m_buckets });
    let ghost x = pure { q.m_buckets[q.m_max_idx][0] } in
    assert { held q x /\ key q x + q.m_gain_span = q.m_max_idx }
  let lemma hasnone (q: fifo_node_bucket_pq)
    requires { wf q /\ q.m_elements <= 0 }
    ensures { forall x. not held q x }
  = let lemma f (x: int) requires { held q x } ensures { false }
      = total_ge (pure { elts q.m_buckets }) (pure { length q.m_buckets }) (pure { key q x + q.m_gain_span }) in ()
  predicate same_frame (q p: fifo_node_bucket_pq) =
    q.m_gain_span = p.m_gain_span /\ length q.m_queue_index = length p.m_queue_index
  predicate unchanged_but (q p: fifo_node_bucket_pq) (x: int) =
    forall y. 0 <= y < length p.m_queue_index -> y <> x -> (held q y <-> held p y) /\ (held p y -> key q y = key p y)
}}}

fn fifo_node_bucket_pq::fifo_node_bucket_pq as fq_new(num_nodes, gain_span_input)
  requires gain_span_input <= 0x3fffffff
  ensures wf result /\ result.m_gain_span = gain_span_input /\ length result.m_queue_index = num_nodes
  ensures result.m_elements = 0 /\ forall x. not held result x

fn fifo_node_bucket_pq::insert as fq_insert(node, gain)
  requires wf this /\ 0 <= node < length this.m_queue_index /\ not held this node /\ 0 <= gain <= this.m_gain_span
  requires this.m_elements < 0xffffffff
  ensures wf this /\ same_frame this (old this) /\ held this node /\ key this node = gain
  ensures unchanged_but this (old this) node
  ensures this.m_elements = (old this).m_elements + 1

fn fifo_node_bucket_pq::deleteNode as fq_delete(node)
  at_entry let ghost a0 = pure { key this node + this.m_gain_span } in
    assert { a0 <= this.m_max_idx };
    assert { forall x. held this x -> key this x = key this node -> x <> node ->
        this.m_queue_index[x].p_u64_u32_1 <> this.m_queue_index[node].p_u64_u32_1 };
    assert { forall x. held this x -> key this x = key this node -> x <> this.m_buckets[a0][0] ->
        this.m_queue_index[x].p_u64_u32_1 <> this.m_bucket_offset[a0] }
  at_exit assert { forall i. 0 <= i < length this.m_buckets[a0] ->
      this.m_buckets[a0][i] = (if i + 1 + (this at Init).m_bucket_offset[a0] = (this at Init).m_queue_index[node].p_u64_u32_1
         then (this at Init).m_buckets[a0][0] else (this at Init).m_buckets[a0][i + 1]) };
    assert { forall x. held this x -> x <> node /\ held (this at Init) x /\ key this x = key (this at Init) x };
    assert { forall x. held this x -> key this x + this.m_gain_span = a0 -> x <> (this at Init).m_buckets[a0][0] ->
         this.m_queue_index[x].p_u64_u32_1 = (this at Init).m_queue_index[x].p_u64_u32_1
         && this.m_buckets[a0][this.m_queue_index[x].p_u64_u32_1 - this.m_bucket_offset[a0]] = x };
    assert { forall x. held this x -> key this x + this.m_gain_span = a0 -> x = (this at Init).m_buckets[a0][0] ->
         this.m_queue_index[x].p_u64_u32_1 = (this at Init).m_queue_index[node].p_u64_u32_1
         && this.m_buckets[a0][this.m_queue_index[x].p_u64_u32_1 - this.m_bucket_offset[a0]] = x }
  requires wf this /\ small this /\ held this node
  ensures wf this /\ same_frame this (old this) /\ not held this node
  ensures unchanged_but this (old this) node
  ensures this.m_elements = (old this).m_elements - 1
  loop 1
    invariant 0 <= this.m_max_idx < length this.m_buckets
    invariant forall a. this.m_max_idx <= a < length this.m_buckets -> length this.m_buckets[a] = 0
    variant this.m_max_idx

fn fifo_node_bucket_pq::changeKey as fq_change(element, newKey)
  requires wf this /\ small this /\ held this element /\ 0 <= newKey <= this.m_gain_span
  ensures wf this /\ same_frame this (old this) /\ held this element /\ key this element = newKey
  ensures unchanged_but this (old this) element
  ensures this.m_elements = (old this).m_elements

fn fifo_node_bucket_pq::increaseKey as fq_increase(node, newGain)
  requires wf this /\ small this /\ held this node /\ 0 <= newGain <= this.m_gain_span
  ensures wf this /\ same_frame this (old this) /\ held this node /\ key this node = newGain
  ensures unchanged_but this (old this) node /\ this.m_elements = (old this).m_elements

fn fifo_node_bucket_pq::decreaseKey as fq_decrease(node, newGain)
  requires wf this /\ small this /\ held this node /\ 0 <= newGain <= this.m_gain_span
  ensures wf this /\ same_frame this (old this) /\ held this node /\ key this node = newGain
  ensures unchanged_but this (old this) node /\ this.m_elements = (old this).m_elements

fn fifo_node_bucket_pq::deleteMax as fq_delmax
  requires wf this /\ small this /\ this.m_elements > 0
  ensures wf this /\ same_frame this (old this)
  ensures is_max (old this) result /\ not held this result
  ensures unchanged_but this (old this) result
  ensures this.m_elements = (old this).m_elements - 1
  at_entry nonempty this
  loop 1
    invariant 0 <= this.m_max_idx < length this.m_buckets
    invariant forall a. this.m_max_idx <= a < length this.m_buckets -> length this.m_buckets[a] = 0
    variant this.m_max_idx

fn fifo_node_bucket_pq::maxElement as fq_maxelt
  requires wf this /\ this.m_elements > 0
  ensures is_max this result
  at_entry nonempty this

fn fifo_node_bucket_pq::maxValue as fq_maxval
  requires wf this /\ this.m_elements > 0
  ensures exists x. is_max this x /\ result = key this x
  at_entry nonempty this

fn fifo_node_bucket_pq::size as fq_size
  ensures result = this.m_elements

fn fifo_node_bucket_pq::empty as fq_empty
  requires wf this
  ensures result <-> forall x. not held this x
  at_entry if this.m_elements > 0 then nonempty this else hasnone this

fn fifo_node_bucket_pq::contains as fq_contains(node)
  requires wf this /\ 0 <= node < length this.m_queue_index
  ensures result <-> held this node

fn fifo_node_bucket_pq::getKey as fq_getkey(node)
  requires wf this /\ held this node
  ensures result = key this node

fn fifo_node_bucket_pq::gain as fq_gain(node)
  requires wf this /\ 0 <= node < length this.m_queue_index
  ensures result = if held this node then key this node else 0
