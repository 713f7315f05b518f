# vecMaxNodeHeap: binary max heap over node ids with 32-bit keys (arrays of elements, heap positions and the reverse index)
include data_structure/priority_queues/vecMaxNodeHeap.h
class vecMaxNodeHeap

prelude {{{
  function par (c: int) : int = div (c - 1) 2
  function hk (q: vecMaxNodeHeap) (h: int) : int = q.m_heap[h].p_u64_i32_1
  function elem (q: vecMaxNodeHeap) (e: int) : int = q.m_elements[e].m_data.f_node
  function ekey (q: vecMaxNodeHeap) (e: int) : int = hk q (q.m_elements[e].m_index)
  predicate held (q: vecMaxNodeHeap) (x: int) = 0 <= x < length q.m_element_index /\ q.m_element_index[x] <> 0xffffffff
  function key (q: vecMaxNodeHeap) (x: int) : int = ekey q (q.m_element_index[x])

  (* heap array and element array point at each other *)
  predicate cons (q: vecMaxNodeHeap) =
    length q.m_heap = length q.m_elements /\ 0 <= length q.m_heap <= 0x3fffffff /\
    (forall h. 0 <= h < length q.m_heap -> 0 <= q.m_heap[h].p_u64_i32_2 < length q.m_heap /\
       q.m_elements[q.m_heap[h].p_u64_i32_2].m_index = h /\ 0 <= q.m_heap[h].p_u64_i32_1 <= 0xffffffff) /\
    (forall e. 0 <= e < length q.m_elements -> 0 <= q.m_elements[e].m_index < length q.m_heap /\
       q.m_heap[q.m_elements[e].m_index].p_u64_i32_2 = e)
  (* the reverse index maps exactly the stored nodes to their elements *)
  predicate named (q: vecMaxNodeHeap) =
    length q.m_element_index <= 0x3fffffff /\
    (forall e. 0 <= e < length q.m_elements -> 0 <= elem q e < length q.m_element_index /\ q.m_element_index[(elem q e)] = e) /\
    (forall x. held q x -> 0 <= q.m_element_index[x] < length q.m_elements /\ elem q (q.m_element_index[x]) = x)
  predicate edge (q: vecMaxNodeHeap) (c: int) = 0 < c < length q.m_heap -> hk q c <= hk q (par c)
  predicate heap (q: vecMaxNodeHeap) = forall c. 0 < c < length q.m_heap -> hk q c <= hk q (par c)
  (* children of i are not above the parent of i *)
  predicate grand (q: vecMaxNodeHeap) (i: int) =
    forall c. 0 < c < length q.m_heap -> par c = i -> 0 < i -> hk q c <= hk q (par i)
  predicate wf (q: vecMaxNodeHeap) = cons q /\ named q /\ heap q
  (* same elements with the same keys: only heap positions differ *)
  predicate same_content (q p: vecMaxNodeHeap) =
    length q.m_heap = length p.m_heap /\ length q.m_elements = length p.m_elements /\ q.m_element_index = p.m_element_index /\
    (forall e. 0 <= e < length p.m_elements -> elem q e = elem p e /\ ekey q e = ekey p e)
  predicate is_max (q: vecMaxNodeHeap) (x: int) = held q x /\ forall y. held q y -> key q y <= key q x
  let rec lemma root_max (q: vecMaxNodeHeap) (c: int)
    requires { heap q /\ 0 <= c < length q.m_heap } variant { c }
    ensures { hk q c <= hk q 0 }
  = if c > 0 then begin assert { 0 <= par c < c }; root_max q (pure { par c }) end
  let lemma top (q: vecMaxNodeHeap)
    requires { wf q /\ length q.m_heap > 0 }
    ensures { is_max q (elem q (q.m_heap[0].p_u64_i32_2)) /\ key q (elem q (q.m_heap[0].p_u64_i32_2)) = hk q 0 }
  = let ghost x = pure { elem q (q.m_heap[0].p_u64_i32_2) } in
    assert { held q x /\ key q x = hk q 0 };
    assert { forall y. held q y -> 0 <= q.m_elements[q.m_element_index[y]].m_index < length q.m_heap }
  let lemma hasnone (q: vecMaxNodeHeap)
    requires { wf q /\ length q.m_heap <= 0 }
    ensures { forall x. not held q x }
  = ()
  predicate same_frame (q p: vecMaxNodeHeap) = length q.m_element_index = length p.m_element_index
  predicate unchanged_but (q p: vecMaxNodeHeap) (x: int) =
    forall y. y <> x -> (held q y <-> held p y) /\ (held p y -> key q y = key p y)
}}}

fn vecMaxNodeHeap::vecMaxNodeHeap sig "#1" as vh_new(num_nodes)
  requires num_nodes <= 0x3fffffff
  ensures wf result /\ length result.m_element_index = num_nodes
  ensures length result.m_heap = 0 /\ forall x. not held result x

fn vecMaxNodeHeap::siftUp as vh_up(pos)
  requires cons this /\ 0 <= pos < length this.m_heap
  requires forall c. 0 < c < length this.m_heap -> c <> pos -> hk this c <= hk this (par c)
  requires grand this pos
  ensures cons this /\ same_content this (old this)
  ensures heap this
  variant pos

fn vecMaxNodeHeap::siftDown as vh_down(pos)
  requires cons this /\ 0 <= pos < length this.m_heap
  requires forall c. 0 < c < length this.m_heap -> c <> pos -> par c <> pos -> hk this c <= hk this (par c)
  requires grand this pos
  ensures cons this /\ same_content this (old this)
  ensures forall j. 0 <= j < pos -> this.m_heap[j] = (old this).m_heap[j]
  ensures forall c. 0 < c < length this.m_heap -> c <> pos -> hk this c <= hk this (par c)
  ensures grand this pos
  ensures 0 < pos -> hk (old this) pos <= hk (old this) (par pos) -> hk this pos <= hk this (par pos)
  variant length this.m_heap - pos

fn vecMaxNodeHeap::insert as vh_insert(node, gain)
  requires wf this /\ 0 <= node < length this.m_element_index /\ length this.m_heap < 0x3fffffff
  ensures wf this /\ same_frame this (old this) /\ held this node
  ensures key this node = (if held (old this) node then key (old this) node else gain)
  ensures unchanged_but this (old this) node
  ensures length this.m_heap = length (old this).m_heap + (if held (old this) node then 0 else 1)

fn vecMaxNodeHeap::deleteNode as vh_delete(node)
  requires wf this /\ held this node
  ensures wf this /\ same_frame this (old this) /\ not held this node
  ensures unchanged_but this (old this) node
  ensures length this.m_heap = length (old this).m_heap - 1

fn vecMaxNodeHeap::deleteMax as vh_delmax
  requires wf this /\ length this.m_heap > 0
  at_entry top this
  ensures wf this /\ same_frame this (old this)
  ensures is_max (old this) result /\ not held this result
  ensures unchanged_but this (old this) result
  ensures length this.m_heap = length (old this).m_heap - 1

fn vecMaxNodeHeap::decreaseKey as vh_decrease(node, gain)
  requires wf this /\ held this node /\ gain <= key this node
  ensures wf this /\ same_frame this (old this) /\ held this node /\ key this node = gain
  ensures unchanged_but this (old this) node
  ensures length this.m_heap = length (old this).m_heap

fn vecMaxNodeHeap::increaseKey as vh_increase(node, gain)
  requires wf this /\ held this node /\ gain >= key this node
  ensures wf this /\ same_frame this (old this) /\ held this node /\ key this node = gain
  ensures unchanged_but this (old this) node
  ensures length this.m_heap = length (old this).m_heap

fn vecMaxNodeHeap::changeKey as vh_change(node, gain)
  requires wf this /\ held this node
  ensures wf this /\ same_frame this (old this) /\ held this node /\ key this node = gain
  ensures unchanged_but this (old this) node
  ensures length this.m_heap = length (old this).m_heap

fn vecMaxNodeHeap::maxElement as vh_maxelt
  requires wf this /\ length this.m_heap > 0
  ensures is_max this result
  at_entry top this

fn vecMaxNodeHeap::maxValue as vh_maxval
  requires wf this /\ length this.m_heap > 0
  ensures exists x. is_max this x /\ result = key this x
  at_entry top this

fn vecMaxNodeHeap::getKey as vh_getkey(node)
  requires wf this /\ held this node
  ensures result = key this node

fn vecMaxNodeHeap::contains as vh_contains(node)
  requires wf this /\ 0 <= node < length this.m_element_index
  ensures result <-> held this node

fn vecMaxNodeHeap::size as vh_size
  requires wf this
  ensures result = length this.m_heap

fn vecMaxNodeHeap::empty as vh_empty
  requires wf this
  ensures result <-> forall x. not held this x
