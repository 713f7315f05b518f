# bucket_pq: bucket queue with a hash index, keys 0..span
include data_structure/priority_queues/bucket_pq.h
class bucket_pq

prelude {{{

  (* number of stored elements in buckets [0, n) *)
  let rec ghost function total (b: int -> vec int) (n: int) : int
    requires { 0 <= n } variant { n }
  = if n = 0 then 0 else total b (n - 1) + length (b (n - 1))

  let rec lemma total_upd (b: int -> vec int) (i: int) (v: vec int) (n: int)
    requires { 0 <= n } variant { n }
    ensures { total (Map.set b i v) n = total b n + (if 0 <= i < n then length v - length (b i) else 0) }
  = if n > 0 then total_upd b i v (n - 1)

  let rec lemma total_zero (b: int -> vec int) (n: int)
    requires { 0 <= n /\ forall i. 0 <= i < n -> length (b i) = 0 } variant { n }
    ensures { total b n = 0 }
  = if n > 0 then total_zero b (n - 1)

  let rec lemma total_ge (b: int -> vec int) (n i: int)
    requires { 0 <= i < n /\ forall j. 0 <= j < n -> length (b j) >= 0 } variant { n }
    ensures { total b n >= length (b i) }
  = let rec lemma nonneg (m: int) requires { 0 <= m <= n } variant { m } ensures { total b m >= 0 }
      = if m > 0 then nonneg (m - 1) in
    if i < n - 1 then total_ge b (n - 1) i else nonneg (n - 1)

  predicate held (q: bucket_pq) (x: int) =
    dom q.m_queue_index x
  function key (q: bucket_pq) (x: int) : int = (mp q.m_queue_index x).p_u64_u32_2

  predicate wf (q: bucket_pq) =
    0 <= q.m_gain_span <= 0x3fffffff /\ length q.m_buckets = 2 * q.m_gain_span + 1 /\
    (forall a. 0 <= a < length q.m_buckets -> 0 <= length q.m_buckets[a] <= 0xffffffff) /\
    (forall a j. 0 <= a < length q.m_buckets -> 0 <= j < length q.m_buckets[a] ->
       0 <= q.m_buckets[a][j] <= 0xffffffff /\ dom q.m_queue_index q.m_buckets[a][j] /\
       (mp q.m_queue_index q.m_buckets[a][j]).p_u64_u32_1 = j /\
       (mp q.m_queue_index q.m_buckets[a][j]).p_u64_u32_2 + q.m_gain_span = a) /\
    (forall x. held q x -> 0 <= x <= 0xffffffff /\ 0 <= key q x <= q.m_gain_span /\
       0 <= (mp q.m_queue_index x).p_u64_u32_1 < length q.m_buckets[key q x + q.m_gain_span] /\
       q.m_buckets[key q x + q.m_gain_span][(mp q.m_queue_index x).p_u64_u32_1] = x) /\
    0 <= q.m_max_idx < length q.m_buckets /\
    (forall a. q.m_max_idx < a < length q.m_buckets -> length q.m_buckets[a] = 0) /\
    (length q.m_buckets[q.m_max_idx] = 0 -> q.m_max_idx = 0) /\
    q.m_elements <= 0xffffffff /\ q.m_elements = total (elts q.m_buckets) (length q.m_buckets)

  (* what a client may rely on for the maximum *)
  predicate is_max (q: bucket_pq) (x: int) =
    held q x /\ forall y. held q y -> key q y <= key q x
  (* a queue with elements has a non-empty top bucket, holding a maximum *)
  let lemma nonempty (q: bucket_pq)
    requires { wf q /\ q.m_elements > 0 }
    ensures { length q.m_buckets[q.m_max_idx] > 0 /\ q.m_max_idx >= q.m_gain_span }
    ensures { is_max q (q.m_buckets[q.m_max_idx][length q.m_buckets[q.m_max_idx] - 1]) }
  = if pure { length q.m_buckets[q.m_max_idx] <= 0 } then total_zero (pure { elts q.m_buckets }) (pure { length q.m_buckets });
    let ghost x = pure { q.m_buckets[q.m_max_idx][length q.m_buckets[q.m_max_idx] - 1] } in
    assert { held q x /\ key q x + q.m_gain_span = q.m_max_idx }
  let lemma hasnone (q: bucket_pq)
    requires { wf q /\ q.m_elements <= 0 }
    ensures { forall x. not held q x }
  = let lemma f (x: int) requires { held q x } ensures { false }
      = total_ge (pure { elts q.m_buckets }) (pure { length q.m_buckets }) (pure { key q x + q.m_gain_span }) in ()
  predicate same_frame (q p: bucket_pq) =
    q.m_gain_span = p.m_gain_span
  predicate unchanged_but (q p: bucket_pq) (x: int) =
    forall y. y <> x -> (held q y <-> held p y) /\ (held p y -> key q y = key p y)
}}}

fn bucket_pq::bucket_pq sig "#1" as bq_new(gain_span_input)
  requires gain_span_input <= 0x3fffffff
  ensures wf result /\ result.m_gain_span = gain_span_input
  ensures result.m_elements = 0 /\ forall x. not held result x

fn bucket_pq::insert as bq_insert(node, gain)
  requires wf this /\ not held this node /\ 0 <= gain <= this.m_gain_span
  requires this.m_elements < 0xffffffff
  ensures wf this /\ same_frame this (old this) /\ held this node /\ key this node = gain
  ensures unchanged_but this (old this) node
  ensures this.m_elements = (old this).m_elements + 1

fn bucket_pq::deleteNode as bq_delete(node)
  at_entry assert { key this node + this.m_gain_span <= this.m_max_idx }
  requires wf this /\ held this node
  ensures wf this /\ same_frame this (old this) /\ not held this node
  ensures unchanged_but this (old this) node
  ensures this.m_elements = (old this).m_elements - 1
  loop 1
    invariant 0 <= this.m_max_idx < length this.m_buckets
    invariant forall a. this.m_max_idx <= a < length this.m_buckets -> length this.m_buckets[a] = 0
    variant this.m_max_idx

fn bucket_pq::changeKey as bq_change(element, newKey)
  requires wf this /\ held this element /\ 0 <= newKey <= this.m_gain_span
  ensures wf this /\ same_frame this (old this) /\ held this element /\ key this element = newKey
  ensures unchanged_but this (old this) element
  ensures this.m_elements = (old this).m_elements

fn bucket_pq::increaseKey as bq_increase(node, newGain)
  requires wf this /\ held this node /\ 0 <= newGain <= this.m_gain_span
  ensures wf this /\ same_frame this (old this) /\ held this node /\ key this node = newGain
  ensures unchanged_but this (old this) node /\ this.m_elements = (old this).m_elements

fn bucket_pq::decreaseKey as bq_decrease(node, newGain)
  requires wf this /\ held this node /\ 0 <= newGain <= this.m_gain_span
  ensures wf this /\ same_frame this (old this) /\ held this node /\ key this node = newGain
  ensures unchanged_but this (old this) node /\ this.m_elements = (old this).m_elements

fn bucket_pq::deleteMax as bq_delmax
  requires wf this /\ this.m_elements > 0
  ensures wf this /\ same_frame this (old this)
  ensures is_max (old this) result /\ not held this result
  ensures unchanged_but this (old this) result
  ensures this.m_elements = (old this).m_elements - 1
  at_entry nonempty this
  loop 1
    invariant 0 <= this.m_max_idx < length this.m_buckets
    invariant forall a. this.m_max_idx <= a < length this.m_buckets -> length this.m_buckets[a] = 0
    variant this.m_max_idx

fn bucket_pq::maxElement as bq_maxelt
  requires wf this /\ this.m_elements > 0
  ensures is_max this result
  at_entry nonempty this

fn bucket_pq::maxValue as bq_maxval
  requires wf this /\ this.m_elements > 0
  ensures exists x. is_max this x /\ result = key this x
  at_entry nonempty this

fn bucket_pq::size as bq_size
  ensures result = this.m_elements

fn bucket_pq::empty as bq_empty
  requires wf this
  ensures result <-> forall x. not held this x
  at_entry if this.m_elements > 0 then nonempty this else hasnone this

fn bucket_pq::contains as bq_contains(node)
  requires wf this
  ensures result <-> held this node

fn bucket_pq::getKey as bq_getkey(node)
  requires wf this /\ held this node
  ensures result = key this node

fn bucket_pq::gain as bq_gain(node)
  requires wf this
  ensures result = if held this node then key this node else 0
