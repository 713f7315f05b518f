# maxNodeHeap: binary max heap over node ids with 32-bit keys (arrays of elements, heap positions and the reverse index)
include data_structure/priority_queues/maxNodeHeap.h
class maxNodeHeap

prelude {{{
  function par (c: int) : int = div (c - 1) 2
  function hk (q: maxNodeHeap) (h: int) : int = q.m_heap[h].p_u64_i32_1
  function elem (q: maxNodeHeap) (e: int) : int = q.m_elements[e].m_data.f_node
  function ekey (q: maxNodeHeap) (e: int) : int = hk q (q.m_elements[e].m_index)
  lemma roundtrip: forall x. 0 <= x <= 0xffffffff -> u32 (s32 x) = x
  predicate held (q: maxNodeHeap) (x: int) = 0 <= x <= 0xffffffff /\ dom q.m_element_index x
  function key (q: maxNodeHeap) (x: int) : int = ekey q (mp q.m_element_index x)

  (* heap array and element array point at each other *)
  predicate cons (q: maxNodeHeap) =
    length q.m_heap = length q.m_elements /\ 0 <= length q.m_heap <= 0x3fffffff /\
    (forall h. 0 <= h < length q.m_heap -> 0 <= q.m_heap[h].p_u64_i32_2 < length q.m_heap /\
       q.m_elements[q.m_heap[h].p_u64_i32_2].m_index = h /\ 0 <= q.m_heap[h].p_u64_i32_1 <= 0xffffffff) /\
    (forall e. 0 <= e < length q.m_elements -> 0 <= q.m_elements[e].m_index < length q.m_heap /\
       q.m_heap[q.m_elements[e].m_index].p_u64_i32_2 = e)
  (* the reverse index maps exactly the stored nodes to their elements *)
  predicate named (q: maxNodeHeap) =
    
    (forall e. 0 <= e < length q.m_elements -> 0 <= elem q e <= 0xffffffff /\ dom q.m_element_index (elem q e) /\ mp q.m_element_index (elem q e) = e) /\
    (forall x. held q x -> 0 <= mp q.m_element_index x < length q.m_elements /\ elem q (mp q.m_element_index x) = x)
  predicate edge (q: maxNodeHeap) (c: int) = 0 < c < length q.m_heap -> hk q c <= hk q (par c)
  predicate heap (q: maxNodeHeap) = forall c. 0 < c < length q.m_heap -> hk q c <= hk q (par c)
  (* children of i are not above the parent of i *)
  predicate grand (q: maxNodeHeap) (i: int) =
    forall c. 0 < c < length q.m_heap -> par c = i -> 0 < i -> hk q c <= hk q (par i)
  predicate wf (q: maxNodeHeap) = cons q /\ named q /\ heap q
  (* same elements with the same keys: only heap positions differ *)
  predicate same_content (q p: maxNodeHeap) =
    length q.m_heap = length p.m_heap /\ length q.m_elements = length p.m_elements /\ q.m_element_index = p.m_element_index /\
    (forall e. 0 <= e < length p.m_elements -> elem q e = elem p e /\ ekey q e = ekey p e)
  predicate is_max (q: maxNodeHeap) (x: int) = held q x /\ forall y. held q y -> key q y <= key q x
  let rec lemma root_max (q: maxNodeHeap) (c: int)
    requires { heap q /\ 0 <= c < length q.m_heap } variant { c }
    ensures { hk q c <= hk q 0 }
  = if c > 0 then begin assert { 0 <= par c < c }; root_max q (pure { par c }) end
  let lemma top (q: maxNodeHeap)
    requires { wf q /\ length q.m_heap > 0 }
    ensures { is_max q (elem q (q.m_heap[0].p_u64_i32_2)) /\ key q (elem q (q.m_heap[0].p_u64_i32_2)) = hk q 0 }
  = let ghost x = pure { elem q (q.m_heap[0].p_u64_i32_2) } in
    assert { held q x /\ key q x = hk q 0 };
    assert { forall y. held q y -> 0 <= q.m_elements[mp q.m_element_index y].m_index < length q.m_heap }
  let lemma hasnone (q: maxNodeHeap)
    requires { wf q /\ length q.m_heap <= 0 }
    ensures { forall x. not held q x }
  = ()
  predicate same_frame (q p: maxNodeHeap) = true
  predicate unchanged_but (q p: maxNodeHeap) (x: int) =
    forall y. y <> x -> (held q y <-> held p y) /\ (held p y -> key q y = key p y)
}}}

fn maxNodeHeap::maxNodeHeap sig "#0" as mh_new
  ensures wf result
  ensures length result.m_heap = 0 /\ forall x. not held result x

fn maxNodeHeap::siftUp as mh_up(pos)
  requires cons this /\ 0 <= pos < length this.m_heap
  requires forall c. 0 < c < length this.m_heap -> c <> pos -> hk this c <= hk this (par c)
  requires grand this pos
  ensures cons this /\ same_content this (old this)
  ensures heap this
  variant pos

fn maxNodeHeap::siftDown as mh_down(pos)
  requires cons this /\ 0 <= pos < length this.m_heap
  requires forall c. 0 < c < length this.m_heap -> c <> pos -> par c <> pos -> hk this c <= hk this (par c)
  requires grand this pos
  ensures cons this /\ same_content this (old this)
  ensures forall j. 0 <= j < pos -> this.m_heap[j] = (old this).m_heap[j]
  ensures forall c. 0 < c < length this.m_heap -> c <> pos -> hk this c <= hk this (par c)
  ensures grand this pos
  ensures 0 < pos -> hk (old this) pos <= hk (old this) (par pos) -> hk this pos <= hk this (par pos)
  variant length this.m_heap - pos

fn maxNodeHeap::insert as mh_insert(node, gain)
  requires wf this /\ true /\ length this.m_heap < 0x3fffffff
  ensures wf this /\ same_frame this (old this) /\ held this node
  ensures key this node = (if held (old this) node then key (old this) node else gain)
  ensures unchanged_but this (old this) node
  ensures length this.m_heap = length (old this).m_heap + (if held (old this) node then 0 else 1)

fn maxNodeHeap::deleteNode as mh_delete(node)
  requires wf this /\ held this node
  ensures wf this /\ same_frame this (old this) /\ not held this node
  ensures unchanged_but this (old this) node
  ensures length this.m_heap = length (old this).m_heap - 1
  at_entry let ghost e0 = pure { mp this.m_element_index node } in let ghost n0 = pure { length this.m_elements } in
    assert { forall e. 0 <= e < n0 -> e <> e0 -> elem this e <> node }
  at_exit assert { elem this e0 = elem (this at Init) (n0 - 1) \/ e0 = n0 - 1 };
    assert { forall e. 0 <= e < n0 - 1 -> e <> e0 -> elem this e = elem (this at Init) e };
    assert { forall e. 0 <= e < n0 - 1 -> held this (elem this e) };
    assert { forall e. 0 <= e < n0 - 1 -> e <> e0 -> elem (this at Init) e <> node /\ elem (this at Init) e <> elem (this at Init) (n0 - 1) };
    assert { forall e. 0 <= e < n0 - 1 -> e <> e0 -> mp this.m_element_index (elem this e) = e };
    assert { e0 < n0 - 1 -> mp this.m_element_index (elem this e0) = e0 };
    assert { forall e. 0 <= e < n0 - 1 -> mp this.m_element_index (elem this e) = e };
    assert { forall x. held this x -> 0 <= mp this.m_element_index x < n0 - 1 };
    assert { forall x. held this x -> elem this (mp this.m_element_index x) = x }

fn maxNodeHeap::deleteMax as mh_delmax
  requires wf this /\ length this.m_heap > 0
  at_entry top this
  ensures wf this /\ same_frame this (old this)
  ensures is_max (old this) result /\ not held this result
  ensures unchanged_but this (old this) result
  ensures length this.m_heap = length (old this).m_heap - 1

fn maxNodeHeap::decreaseKey as mh_decrease(node, gain)
  requires wf this /\ held this node /\ gain <= key this node
  ensures wf this /\ same_frame this (old this) /\ held this node /\ key this node = gain
  ensures unchanged_but this (old this) node
  ensures length this.m_heap = length (old this).m_heap

fn maxNodeHeap::increaseKey as mh_increase(node, gain)
  requires wf this /\ held this node /\ gain >= key this node
  ensures wf this /\ same_frame this (old this) /\ held this node /\ key this node = gain
  ensures unchanged_but this (old this) node
  ensures length this.m_heap = length (old this).m_heap

fn maxNodeHeap::changeKey as mh_change(node, gain)
  requires wf this /\ held this node
  ensures wf this /\ same_frame this (old this) /\ held this node /\ key this node = gain
  ensures unchanged_but this (old this) node
  ensures length this.m_heap = length (old this).m_heap

fn maxNodeHeap::maxElement as mh_maxelt
  requires wf this /\ length this.m_heap > 0
  ensures is_max this result
  at_entry top this

fn maxNodeHeap::maxValue as mh_maxval
  requires wf this /\ length this.m_heap > 0
  ensures exists x. is_max this x /\ result = key this x
  at_entry top this

fn maxNodeHeap::getKey as mh_getkey(node)
  requires wf this /\ held this node
  ensures result = key this node

fn maxNodeHeap::contains as mh_contains(node)
  requires wf this /\ true
  ensures result <-> held this node

fn maxNodeHeap::size as mh_size
  requires wf this
  ensures result = length this.m_heap

fn maxNodeHeap::empty as mh_empty
  requires wf this
  ensures result <-> forall x. not held this x
