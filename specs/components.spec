# connected components: algorithms/misc/strongly_connected_components.h on undirected graphs
include algorithms/misc/strongly_connected_components.h
import sums
class strongly_connected_components
class graph_extractor

prelude {{{
  function tg (g: basicGraph) (e: int) : int = g.m_edges[e].f_target
  predicate arc (g: basicGraph) (v e: int) = 0 <= v < nn g /\ first g v <= e < last g v
  predicate edge_between (g: basicGraph) (a b: int) = exists e. arc g a e /\ tg g e = b
  (* every edge can be travelled in both directions *)
  predicate undirected (g: basicGraph) = forall a e. arc g a e -> edge_between g (tg g e) a
  predicate closed (g: basicGraph) (p: int -> int) = forall a e. arc g a e -> p a = 1 -> p (tg g e) = 1
  (* y can be reached from x: every set that contains x and is closed under edges contains y *)
  predicate path (g: basicGraph) (x y: int) = forall p: int -> int. p x = 1 -> closed g p -> p y = 1
  let lemma path_refl (g: basicGraph) (x: int) ensures { path g x x } = ()
  let lemma path_step (g: basicGraph) (x a e: int)
    requires { path g x a /\ arc g a e } ensures { path g x (tg g e) } = ()
  let lemma path_trans (g: basicGraph) (x y z: int)
    requires { path g x y /\ path g y z } ensures { path g x z } = ()
  let lemma path_sym (g: basicGraph) (x y: int)
    requires { undirected g /\ path g x y } ensures { path g y x }
  = let ghost p = pure { fun z -> if path g z x then 1 else 0 } in
    assert { forall b. edge_between g b x -> path g b x };
    let lemma one (a e: int) requires { arc g a e /\ path g a x } ensures { path g (tg g e) x }
      = assert { edge_between g (tg g e) a }; assert { path g (tg g e) a } in
    assert { closed g p }; assert { p x = 1 }; assert { p y = 1 }

  let rec ghost function vis (d: vec int) (n: int) : int
    variant { n } ensures { 0 <= result /\ (n >= 0 -> result <= n) }
  = if n <= 0 then 0 else vis d (n - 1) + (if pure { d[n - 1] <> -1 } then 1 else 0)
  let rec ghost vis_upd (d f: vec int) (n v: int)
    requires { 0 <= v < n /\ d[v] = -1 /\ f[v] <> -1 /\ forall i. 0 <= i < n -> i <> v -> f[i] = d[i] } variant { n }
    ensures { vis f n = vis d n + 1 }
  = if n - 1 = v then vis_same d f (n - 1) else vis_upd d f (n - 1) v
  with ghost vis_same (d f: vec int) (n: int)
    requires { forall i. 0 <= i < n -> f[i] = d[i] } variant { n }
    ensures { vis f n = vis d n }
  = if n > 0 then vis_same d f (n - 1)
  let rec ghost vis_less (d: vec int) (n v: int)
    requires { 0 <= v < n /\ d[v] = -1 } variant { n }
    ensures { vis d n < n }
  = if n - 1 > v then vis_less d (n - 1) v
  let rec ghost vis_none (d: vec int) (n: int)
    requires { forall i. 0 <= i < n -> d[i] = -1 } variant { n }
    ensures { vis d n = 0 }
  = if n > 0 then vis_none d (n - 1)

  predicate ready (s: strongly_connected_components) (g: basicGraph) =
    length s.m_dfsnum = nn g /\ length s.m_comp_num = nn g /\ 0 <= s.m_dfscount = vis s.m_dfsnum (nn g) /\
    s.m_comp_count <= s.m_dfscount /\ s.m_comp_count < 0x80000000 /\ s.m_dfscount < 0x80000000 /\
    (forall v. 0 <= v < nn g -> -1 <= s.m_dfsnum[v] < s.m_dfscount)
  (* every vertex of r's component but r itself has a neighbour that was reached before it *)
  predicate root_of (s: strongly_connected_components) (g: basicGraph) (r: int) =
    0 <= r < nn g /\ forall v. 0 <= v < nn g -> s.m_comp_num[v] = s.m_comp_num[r] -> v <> r ->
       exists e. arc g v e /\ s.m_dfsnum[tg g e] < s.m_dfsnum[v]
  (* marks the instances of the next predicate; always zero *)
  let rec ghost function mark (n: int) : int variant { n } ensures { result = 0 } = if n <= 0 then 0 else mark (n - 1)
  predicate has_root (s: strongly_connected_components) (g: basicGraph) (c: int) = exists r. s.m_comp_num[r] = c /\ root_of s g r
  predicate rooted (s: strongly_connected_components) (g: basicGraph) =
    forall c. mark c = 0 -> 0 <= c < s.m_comp_count -> has_root s g c
  (* everything visited so far is a union of finished components *)
  predicate settled (s: strongly_connected_components) (g: basicGraph) =
    ready s g /\ length s.m_unfinished = 0 /\ length s.m_roots = 0 /\ length s.f_iteration_stack = 0 /\
    (forall v. 0 <= v < nn g -> -1 <= s.m_comp_num[v] < s.m_comp_count /\ (s.m_comp_num[v] = -1 <-> s.m_dfsnum[v] = -1)) /\
    (forall v e. arc g v e -> s.m_comp_num[tg g e] = s.m_comp_num[v]) /\
    rooted s g

  (* ---- during one depth-first search; d0: first number given in this search ---- *)
  predicate fresh (s: strongly_connected_components) (d0 v: int) = d0 <= s.m_dfsnum[v]
  predicate on_stack (st: vec p_u32_u64) (v: int) = exists i. 0 <= i < length st /\ st[i].p_u32_u64_1 = v
  predicate in_roots (r: vec int) (v: int) = exists i. 0 <= i < length r /\ r[i] = v
  (* no root lies between the two ends of an explored edge *)
  predicate explored (s: strongly_connected_components) (g: basicGraph) (v e: int) =
    s.m_dfsnum[tg g e] <> -1 /\
    forall j. 0 <= j < length s.m_roots -> not (s.m_dfsnum[tg g e] < s.m_dfsnum[s.m_roots[j]] <= s.m_dfsnum[v])
  predicate numbering (s: strongly_connected_components) (g: basicGraph) (d0: int) =
    0 <= d0 /\ 0 <= length s.m_unfinished = s.m_dfscount - d0 /\
    (forall i. 0 <= i < length s.m_unfinished -> 0 <= s.m_unfinished[i] < nn g /\ s.m_dfsnum[s.m_unfinished[i]] = d0 + i) /\
    (forall v. 0 <= v < nn g -> fresh s d0 v -> s.m_unfinished[s.m_dfsnum[v] - d0] = v)
  predicate roots_ok (s: strongly_connected_components) (g: basicGraph) (d0 node: int) =
    0 < length s.m_roots <= length s.m_unfinished /\ s.m_roots[0] = node /\ s.m_dfsnum[node] = d0 /\ 0 <= node < nn g /\
    (forall i. 0 <= i < length s.m_roots -> 0 <= s.m_roots[i] < nn g /\ fresh s d0 s.m_roots[i]) /\
    (forall i j. 0 <= i < j < length s.m_roots -> s.m_dfsnum[s.m_roots[i]] < s.m_dfsnum[s.m_roots[j]])
  predicate stack_ok (s: strongly_connected_components) (g: basicGraph) (d0: int) (pos: int -> int) =
    let st = s.f_iteration_stack in
    0 <= length st <= length s.m_unfinished /\
    (forall i. 0 <= i < length st -> 0 <= st[i].p_u32_u64_1 < nn g /\ fresh s d0 st[i].p_u32_u64_1 /\ st[i].p_u32_u64_2 = pos st[i].p_u32_u64_1) /\
    (forall i. 0 <= i < length st -> d0 + i <= s.m_dfsnum[st[i].p_u32_u64_1]) /\
    (forall i j. 0 <= i < j < length st -> s.m_dfsnum[st[i].p_u32_u64_1] < s.m_dfsnum[st[j].p_u32_u64_1])
  predicate search (s o: strongly_connected_components) (g: basicGraph) (node: int) (pos: int -> int) =
    let d0 = o.m_dfscount in
    ready s g /\ numbering s g d0 /\ roots_ok s g d0 node /\
    s.m_comp_num = o.m_comp_num /\ s.m_comp_count = o.m_comp_count /\
    (forall v. 0 <= v < nn g -> if o.m_dfsnum[v] <> -1 then s.m_dfsnum[v] = o.m_dfsnum[v] else s.m_dfsnum[v] = -1 \/ fresh s d0 v) /\
    (forall v. 0 <= v < nn g -> first g v <= pos v <= last g v /\ (s.m_dfsnum[v] = -1 -> pos v = first g v)) /\
    (forall v e. 0 <= v < nn g -> fresh s d0 v -> first g v <= e < pos v -> explored s g v e) /\
    (* every vertex but the first was reached from an earlier one *)
    (forall v. 0 <= v < nn g -> fresh s d0 v -> v <> node -> exists e. arc g v e /\ d0 <= s.m_dfsnum[tg g e] < s.m_dfsnum[v])
  (* vertices whose search is over, except the one in hand *)
  predicate left (s: strongly_connected_components) (g: basicGraph) (d0 node cur: int) (pos: int -> int) =
    forall v. 0 <= v < nn g -> fresh s d0 v -> v <> cur -> not on_stack s.f_iteration_stack v ->
      pos v = last g v /\ (v <> node -> not in_roots s.m_roots v)
  predicate below (s: strongly_connected_components) (cur: int) =
    forall i. 0 <= i < length s.f_iteration_stack -> s.m_dfsnum[s.f_iteration_stack[i].p_u32_u64_1] < s.m_dfsnum[cur]
  predicate holding (s o: strongly_connected_components) (g: basicGraph) (node cur: int) (pos: int -> int) =
    search s o g node pos /\ stack_ok s g o.m_dfscount pos /\ left s g o.m_dfscount node cur pos /\
    0 <= cur < nn g /\ fresh s o.m_dfscount cur /\ below s cur /\ s.m_dfscount <= nn g /\
    (if length s.f_iteration_stack = 0 then cur = node else s.f_iteration_stack[0].p_u32_u64_1 = node)
  predicate resting (s o: strongly_connected_components) (g: basicGraph) (node: int) (pos: int -> int) =
    search s o g node pos /\ stack_ok s g o.m_dfscount pos /\ left s g o.m_dfscount node (-1) pos /\
    length s.f_iteration_stack > 0 /\ s.f_iteration_stack[0].p_u32_u64_1 = node

  let ghost explored_prefix (s t: strongly_connected_components) (g: basicGraph) (v e: int)
    requires { explored s g v e /\ t.m_dfsnum = s.m_dfsnum /\ length t.m_roots <= length s.m_roots }
    requires { forall i. 0 <= i < length t.m_roots -> t.m_roots[i] = s.m_roots[i] }
    ensures { explored t g v e }
  = assert { forall j. 0 <= j < length t.m_roots -> not (s.m_dfsnum[tg g e] < s.m_dfsnum[s.m_roots[j]] <= s.m_dfsnum[v]) }

  (* one more edge of cur is explored; its target has been visited before *)
  let ghost scan_edge (s t o: strongly_connected_components) (g: basicGraph) (node cur e: int) (pos pos': int -> int)
    requires { holding s o g node cur pos /\ settled o g /\ undirected g /\ arc g cur e /\ pos cur = e }
    requires { s.m_dfsnum[tg g e] <> -1 }
    requires { t.m_dfsnum = s.m_dfsnum /\ t.m_dfscount = s.m_dfscount /\ t.m_comp_num = s.m_comp_num /\ t.m_comp_count = s.m_comp_count
       /\ t.m_unfinished = s.m_unfinished /\ t.f_iteration_stack = s.f_iteration_stack }
    requires { 0 < length t.m_roots <= length s.m_roots }
    requires { forall i. 0 <= i < length t.m_roots -> t.m_roots[i] = s.m_roots[i] }
    requires { s.m_comp_num[tg g e] = -1 -> s.m_dfsnum[t.m_roots[length t.m_roots - 1]] <= s.m_dfsnum[tg g e] }
    requires { pos' cur = e + 1 /\ forall v. v <> cur -> pos' v = pos v }
    ensures { holding t o g node cur pos' }
  = assert { edge_between g (tg g e) cur };
    assert { fresh s o.m_dfscount (tg g e) };
    assert { forall j. 0 <= j < length t.m_roots -> s.m_dfsnum[t.m_roots[j]] <= s.m_dfsnum[t.m_roots[length t.m_roots - 1]]
       by if j = length t.m_roots - 1 then true else s.m_dfsnum[s.m_roots[j]] < s.m_dfsnum[s.m_roots[length t.m_roots - 1]] };
    let lemma one (v f: int) requires { 0 <= v < nn g /\ fresh s o.m_dfscount v /\ first g v <= f < pos v } ensures { explored t g v f }
      = assert { explored s g v f }; explored_prefix s t g v f in
    assert { forall v. 0 <= v < nn g -> pos v <= last g v };
    assert { s.m_comp_num[tg g e] = -1 };
    assert { explored t g cur e };
    assert { forall i. 0 <= i < length s.f_iteration_stack -> s.f_iteration_stack[i].p_u32_u64_1 <> cur };
    assert { forall v. in_roots t.m_roots v -> in_roots s.m_roots v };
    assert { forall v f. 0 <= v < nn g -> fresh s o.m_dfscount v -> first g v <= f < pos v -> s.m_dfsnum[tg g f] <> -1 };
    assert { forall v f. 0 <= v < nn g -> fresh s o.m_dfscount v -> first g v <= f < pos v -> explored t g v f };
    let lemma two (v f: int) requires { 0 <= v < nn g /\ fresh s o.m_dfscount v /\ first g v <= f < pos' v } ensures { explored t g v f }
      = if pure { v = cur /\ f = e } then () else begin assert { f < pos v }; one v f end in
    assert { roots_ok t g o.m_dfscount node };
    assert { search t o g node pos' }

  (* the target of an edge of cur is visited for the first time *)
  let ghost discover (s t o: strongly_connected_components) (g: basicGraph) (node cur e: int) (pos: int -> int)
    requires { holding s o g node cur pos /\ undirected g /\ arc g cur e /\ pos cur = e }
    requires { s.m_dfsnum[tg g e] = -1 /\ csr g }
    requires { t.m_dfscount = s.m_dfscount + 1 /\ t.m_comp_num = s.m_comp_num /\ t.m_comp_count = s.m_comp_count }
    requires { length t.m_dfsnum = length s.m_dfsnum /\ t.m_dfsnum[tg g e] = s.m_dfscount /\ forall v. v <> tg g e -> t.m_dfsnum[v] = s.m_dfsnum[v] }
    requires { let k = length s.m_unfinished in length t.m_unfinished = k + 1 /\ t.m_unfinished[k] = tg g e /\ forall i. 0 <= i < k -> t.m_unfinished[i] = s.m_unfinished[i] }
    requires { let l = length s.m_roots in length t.m_roots = l + 1 /\ t.m_roots[l] = tg g e /\ forall i. 0 <= i < l -> t.m_roots[i] = s.m_roots[i] }
    requires { let z = length s.f_iteration_stack in length t.f_iteration_stack = z + 2 /\
       t.f_iteration_stack[z].p_u32_u64_1 = cur /\ t.f_iteration_stack[z].p_u32_u64_2 = e /\
       t.f_iteration_stack[z + 1].p_u32_u64_1 = tg g e /\ t.f_iteration_stack[z + 1].p_u32_u64_2 = first g (tg g e) /\
       forall i. 0 <= i < z -> t.f_iteration_stack[i] = s.f_iteration_stack[i] }
    ensures { resting t o g node pos /\ t.m_dfscount <= nn g }
    ensures { t.m_roots[length t.m_roots - 1] <> cur }
  = let ghost u = pure { tg g e } in
    vis_less (pure { s.m_dfsnum }) (pure { nn g }) u;
    vis_upd (pure { s.m_dfsnum }) (pure { t.m_dfsnum }) (pure { nn g }) u;
    let ghost k = pure { length s.m_unfinished } in let ghost l = pure { length s.m_roots } in let ghost z = pure { length s.f_iteration_stack } in
    assert { t.m_dfsnum[u] = s.m_dfscount /\ o.m_dfscount + k = s.m_dfscount /\ length t.m_unfinished = k + 1 /\ t.m_unfinished[k] = u };
    assert { forall i. 0 <= i < k -> t.m_unfinished[i] = s.m_unfinished[i] /\ s.m_unfinished[i] <> u };
    assert { length t.m_roots = l + 1 /\ t.m_roots[l] = u };
    assert { forall i. 0 <= i < l -> t.m_roots[i] = s.m_roots[i] /\ s.m_roots[i] <> u };
    assert { length t.f_iteration_stack = z + 2 /\ t.f_iteration_stack[z].p_u32_u64_1 = cur /\ t.f_iteration_stack[z].p_u32_u64_2 = e /\ cur <> u };
    assert { t.f_iteration_stack[z + 1].p_u32_u64_1 = u /\ t.f_iteration_stack[z + 1].p_u32_u64_2 = pos u };
    assert { forall i. 0 <= i < z -> t.f_iteration_stack[i] = s.f_iteration_stack[i] /\ s.f_iteration_stack[i].p_u32_u64_1 <> u };
    assert { forall v. 0 <= v < nn g -> v <> u -> t.m_dfsnum[v] = s.m_dfsnum[v] };
    assert { forall v. 0 <= v < nn g -> fresh t o.m_dfscount v -> v = u \/ fresh s o.m_dfscount v };
    assert { edge_between g u cur };
    assert { forall i. 0 <= i < l -> t.m_dfsnum[t.m_roots[i]] = s.m_dfsnum[s.m_roots[i]] < s.m_dfscount };
    assert { forall i. 0 <= i < z -> t.m_dfsnum[t.f_iteration_stack[i].p_u32_u64_1] = s.m_dfsnum[s.f_iteration_stack[i].p_u32_u64_1] < s.m_dfsnum[cur] < s.m_dfscount };
    assert { forall i. 0 <= i < l -> t.m_dfsnum[t.m_roots[i]] < t.m_dfsnum[t.m_roots[l]] };
    assert { forall i j. 0 <= i < j < l -> t.m_dfsnum[t.m_roots[i]] < t.m_dfsnum[t.m_roots[j]] };
    assert { forall i j. 0 <= i < j < length t.m_roots -> t.m_dfsnum[t.m_roots[i]] < t.m_dfsnum[t.m_roots[j]] by j = l \/ j < l };
    assert { forall v. 0 <= v < nn g -> fresh s o.m_dfscount v -> s.m_dfsnum[v] - o.m_dfscount < k /\ t.m_unfinished[s.m_dfsnum[v] - o.m_dfscount] = v };
    assert { numbering t g o.m_dfscount };
    assert { roots_ok t g o.m_dfscount node };
    assert { forall v f. 0 <= v < nn g -> fresh t o.m_dfscount v -> first g v <= f < pos v -> fresh s o.m_dfscount v };
    assert { forall v f. 0 <= v < nn g -> fresh s o.m_dfscount v -> first g v <= f < pos v -> s.m_dfsnum[tg g f] <> -1 /\ tg g f <> u };
    assert { forall v f j. 0 <= v < nn g -> fresh s o.m_dfscount v -> first g v <= f < pos v -> 0 <= j < l ->
      not (s.m_dfsnum[tg g f] < s.m_dfsnum[s.m_roots[j]] <= s.m_dfsnum[v]) };
    assert { forall v f. 0 <= v < nn g -> fresh s o.m_dfscount v -> v <> u -> first g v <= f < pos v -> explored t g v f };
    assert { forall v. 0 <= v < nn g -> fresh t o.m_dfscount v -> v <> node -> exists e. arc g v e /\ o.m_dfscount <= t.m_dfsnum[tg g e] < t.m_dfsnum[v]
      by if v = u then exists e. arc g u e /\ tg g e = cur else exists e. arc g v e /\ o.m_dfscount <= s.m_dfsnum[tg g e] < s.m_dfsnum[v] /\ tg g e <> u };
    assert { search t o g node pos };
    if z > 0 then begin
      assert { s.m_dfsnum[s.f_iteration_stack[z - 1].p_u32_u64_1] >= o.m_dfscount + (z - 1) };
      assert { s.m_dfsnum[s.f_iteration_stack[z - 1].p_u32_u64_1] < s.m_dfsnum[cur] } end;
    assert { s.m_dfsnum[cur] >= o.m_dfscount + z };
    assert { forall i j. 0 <= i < j < z -> t.m_dfsnum[t.f_iteration_stack[i].p_u32_u64_1] < t.m_dfsnum[t.f_iteration_stack[j].p_u32_u64_1] };
    assert { forall i. 0 <= i < z -> t.m_dfsnum[t.f_iteration_stack[i].p_u32_u64_1] < t.m_dfsnum[t.f_iteration_stack[z].p_u32_u64_1] };
    assert { forall i. 0 <= i < z + 1 -> t.m_dfsnum[t.f_iteration_stack[i].p_u32_u64_1] < t.m_dfsnum[t.f_iteration_stack[z + 1].p_u32_u64_1] };
    let lemma three (i j: int) requires { 0 <= i < j < z + 2 } ensures { t.m_dfsnum[t.f_iteration_stack[i].p_u32_u64_1] < t.m_dfsnum[t.f_iteration_stack[j].p_u32_u64_1] }
      = if j < z then assert { t.m_dfsnum[t.f_iteration_stack[i].p_u32_u64_1] < t.m_dfsnum[t.f_iteration_stack[j].p_u32_u64_1] } else if j = z then () else () in
    assert { stack_ok t g o.m_dfscount pos };
    assert { forall v. v <> u -> v <> cur -> on_stack s.f_iteration_stack v -> on_stack t.f_iteration_stack v
      by exists i. 0 <= i < length s.f_iteration_stack /\ t.f_iteration_stack[i].p_u32_u64_1 = v };
    assert { on_stack t.f_iteration_stack cur by t.f_iteration_stack[length s.f_iteration_stack].p_u32_u64_1 = cur };
    assert { on_stack t.f_iteration_stack u by t.f_iteration_stack[length s.f_iteration_stack + 1].p_u32_u64_1 = u };
    assert { forall v. v <> u -> in_roots t.m_roots v -> in_roots s.m_roots v };
    assert { forall v. 0 <= v < nn g -> fresh t o.m_dfscount v -> not on_stack t.f_iteration_stack v ->
       v <> u /\ v <> cur /\ fresh s o.m_dfscount v /\ not on_stack s.f_iteration_stack v };
    assert { left t g o.m_dfscount node (-1) pos }

  (* all edges of cur have been explored *)
  let ghost complete (s o: strongly_connected_components) (g: basicGraph) (node cur: int) (pos: int -> int)
    requires { holding s o g node cur pos /\ pos cur = last g cur }
    ensures { cur <> node -> resting s o g node pos /\ s.m_roots[length s.m_roots - 1] <> cur /\ length s.f_iteration_stack > 0 }
    ensures { cur = node -> length s.f_iteration_stack = 0 /\ length s.m_roots = 1 /\
       forall v. 0 <= v < nn g -> fresh s o.m_dfscount v -> pos v = last g v }
  = assert { cur <> node -> not in_roots s.m_roots cur
      by exists e. arc g cur e /\ s.m_dfsnum[tg g e] < s.m_dfsnum[cur] /\ explored s g cur e };
    assert { s.m_roots[length s.m_roots - 1] = cur -> in_roots s.m_roots cur };
    assert { cur = node -> forall i. 0 <= i < length s.f_iteration_stack -> false };
    assert { length s.f_iteration_stack = 0 -> forall v. not on_stack s.f_iteration_stack v };
    assert { length s.m_roots > 1 -> in_roots s.m_roots s.m_roots[1] /\ s.m_roots[1] <> node };
    assert { cur = node -> length s.m_roots = 1 }

  let ghost keep_roots (o s: strongly_connected_components) (g: basicGraph)
    requires { rooted o g /\ csr g /\ undirected g }
    requires { forall v. 0 <= v < nn g -> o.m_comp_num[v] <> -1 -> s.m_comp_num[v] = o.m_comp_num[v] /\ s.m_dfsnum[v] = o.m_dfsnum[v] }
    requires { forall v. 0 <= v < nn g -> 0 <= s.m_comp_num[v] < o.m_comp_count -> s.m_comp_num[v] = o.m_comp_num[v] }
    requires { forall v e. arc g v e -> o.m_comp_num[tg g e] = o.m_comp_num[v] }
    ensures { forall c. mark c = 0 -> 0 <= c < o.m_comp_count -> has_root s g c }
  = let lemma one (r: int) requires { root_of o g r /\ 0 <= o.m_comp_num[r] < o.m_comp_count } ensures { s.m_comp_num[r] = o.m_comp_num[r] /\ root_of s g r }
      = assert { forall v e. arc g v e -> 0 <= tg g e < nn g } in
    ()

  predicate finished_search (s o: strongly_connected_components) (g: basicGraph) (node: int) =
    let d0 = o.m_dfscount in
    ready s g /\ length s.m_unfinished = 0 /\ length s.m_roots = 0 /\ length s.f_iteration_stack = 0 /\ s.m_comp_count = o.m_comp_count + 1 /\
    fresh s d0 node /\
    (forall v. 0 <= v < nn g -> if o.m_dfsnum[v] <> -1 then s.m_dfsnum[v] = o.m_dfsnum[v] /\ s.m_comp_num[v] = o.m_comp_num[v]
       else s.m_dfsnum[v] = -1 /\ s.m_comp_num[v] = -1 \/ fresh s d0 v /\ s.m_comp_num[v] = o.m_comp_count) /\
    (forall v e. 0 <= v < nn g -> fresh s d0 v -> arc g v e -> s.m_dfsnum[tg g e] <> -1) /\
    (forall v. 0 <= v < nn g -> fresh s d0 v -> v <> node -> exists e. arc g v e /\ s.m_dfsnum[tg g e] < s.m_dfsnum[v])

  (* everything is visited: the component numbers are exactly the classes of 'joined by a path' *)
  predicate components (g: basicGraph) (c: vec int) (k: int) =
    (forall v. 0 <= v < nn g -> 0 <= c[v] < k) /\
    (forall x y. 0 <= x < nn g -> 0 <= y < nn g -> (c[x] = c[y] <-> path g x y)) /\
    (forall j. mark j = 0 -> 0 <= j < k -> exists v. 0 <= v < nn g /\ c[v] = j)
  let rec ghost to_root (s: strongly_connected_components) (g: basicGraph) (r k: int)
    requires { settled s g /\ csr g /\ root_of s g r /\ s.m_comp_num[r] >= 0 } variant { k }
    ensures { forall v. 0 <= v < nn g -> s.m_comp_num[v] = s.m_comp_num[r] -> s.m_dfsnum[v] < k -> path g v r }
  = if k > 0 then begin
      to_root s g r (k - 1);
      let lemma one (v: int) requires { 0 <= v < nn g /\ s.m_comp_num[v] = s.m_comp_num[r] /\ s.m_dfsnum[v] < k } ensures { path g v r }
      = if pure { v = r } then path_refl g r
        else begin
          let lemma two (e: int) requires { arc g v e /\ s.m_dfsnum[tg g e] < s.m_dfsnum[v] } ensures { path g v r }
          = assert { s.m_comp_num[tg g e] = s.m_comp_num[v] };
            assert { 0 <= tg g e < nn g };
            assert { path g (tg g e) r };
            path_refl g v; path_step g v v e; path_trans g v (pure { tg g e }) r in
          assert { exists e. arc g v e /\ s.m_dfsnum[tg g e] < s.m_dfsnum[v] }
        end in () end
  let ghost all_found (s: strongly_connected_components) (g: basicGraph)
    requires { settled s g /\ csr g /\ undirected g /\ forall v. 0 <= v < nn g -> s.m_dfsnum[v] <> -1 }
    ensures { components g s.m_comp_num s.m_comp_count }
  = let lemma same (x y: int) requires { 0 <= x < nn g /\ 0 <= y < nn g /\ path g x y } ensures { s.m_comp_num[x] = s.m_comp_num[y] }
    = let ghost p = pure { fun z -> if s.m_comp_num[z] = s.m_comp_num[x] then 1 else 0 } in
      assert { closed g p }; assert { p x = 1 }; assert { p y = 1 } in
    let lemma joined (x y: int) requires { 0 <= x < nn g /\ 0 <= y < nn g /\ s.m_comp_num[x] = s.m_comp_num[y] } ensures { path g x y }
    = let ghost c = pure { s.m_comp_num[x] } in
      assert { mark c = 0 /\ 0 <= c < s.m_comp_count };
      let lemma via (r: int) requires { s.m_comp_num[r] = c /\ root_of s g r } ensures { path g x y }
      = to_root s g r (pure { s.m_dfscount });
        assert { path g x r /\ path g y r }; path_sym g y r; path_trans g x r y in
      assert { exists r. s.m_comp_num[r] = c /\ root_of s g r } in
    ()

  (* number of vertices below n in a set *)
  let rec ghost function cnt (p: int -> bool) (n: int) : int
    variant { n } ensures { 0 <= result /\ (n >= 0 -> result <= n) }
  = if n <= 0 then 0 else cnt p (n - 1) + (if p (n - 1) then 1 else 0)
  let rec ghost cnt_same (p q: int -> bool) (n: int)
    requires { forall i. 0 <= i < n -> (p i <-> q i) } variant { n }
    ensures { cnt p n = cnt q n }
  = if n > 0 then cnt_same p q (n - 1)
  let rec ghost cnt_mono (p: int -> bool) (n m: int)
    requires { n <= m } variant { m - n }
    ensures { cnt p n <= cnt p m /\ (0 <= n < m -> p n -> cnt p n < cnt p m) }
  = if n < m then cnt_mono p n (m - 1)
  function block (g: basicGraph) (b: int) : int -> bool = fun v -> g.m_refinement_node_props[v].f_partitionIndex = b
  (* h is the subgraph of g induced by the vertices in p, numbered in order *)
  function eqc (c: vec int) (j: int) : int -> bool = fun v -> c[v] = j
  (* the vertices joined to x *)
  predicate joined (g: basicGraph) (p: int -> bool) (x: int) =
    0 <= x < nn g /\ p x /\ forall y. 0 <= y < nn g -> (p y <-> path g x y)
  predicate is_largest (g: basicGraph) (p: int -> bool) =
    (exists x. joined g p x) /\ forall q y. joined g q y -> cnt q (nn g) <= cnt p (nn g)
  let ghost largest_block (g0 g: basicGraph) (c: vec int) (k m: int)
    requires { components g0 c k /\ 0 <= m < k /\ csr g0 }
    requires { g.m_edges = g0.m_edges /\ g.m_nodes = g0.m_nodes }
    requires { forall j. 0 <= j < k -> cnt (eqc c j) (nn g) <= cnt (eqc c m) (nn g) }
    requires { forall v. 0 <= v < nn g -> (block g 0 v <-> c[v] = m) }
    ensures { is_largest g (block g 0) }
  = let lemma same (x y: int) requires { path g0 x y } ensures { path g x y }
      = let lemma cl (p: int -> int) requires { closed g p } ensures { closed g0 p } = assert { forall a e. arc g0 a e -> arc g a e /\ tg g e = tg g0 e } in () in
    let lemma back (x y: int) requires { path g x y } ensures { path g0 x y }
      = let lemma cl (p: int -> int) requires { closed g0 p } ensures { closed g p } = assert { forall a e. arc g a e -> arc g0 a e /\ tg g e = tg g0 e } in () in
    let ghost b = pure { block g 0 } in let ghost n = pure { nn g } in
    cnt_same b (pure { eqc c m }) n;
    let lemma others (q: int -> bool) (y: int) requires { joined g q y } ensures { cnt q n <= cnt b n }
      = cnt_same q (pure { eqc c c[y] }) n in
    assert { mark m = 0 };
    let lemma wit (v: int) requires { 0 <= v < n /\ c[v] = m } ensures { joined g b v } = () in
    assert { exists v. 0 <= v < n /\ c[v] = m }

  (* the kept edges of v below hi stand in h one after another from position st on, with their targets renumbered *)
  let rec ghost predicate row_kept (h g: basicGraph) (p: int -> bool) (v st hi: int)
    variant { hi - first g v }
  = if hi <= pure { first g v } then true else row_kept h g p v st (hi - 1) &&
      (if pure { p (tgf g (hi - 1)) } then
        (let i = pure { st + psum (tgf g) ones p (first g v) (hi - 1) } in pure { tgf h i = cnt p (tgf g (hi - 1)) /\ wtf h i = wtf g (hi - 1) }) else true)
  let rec ghost psum_pos (t w: int -> int) (p: int -> bool) (lo e hi: int)
    requires { lo <= e < hi /\ (forall i. 0 <= w i) } variant { hi - e }
    ensures { psum t w p lo e + (if p (t e) then w e else 0) <= psum t w p lo hi /\ 0 <= psum t w p lo e }
  = psum_le t w p p lo e; if e < hi - 1 then psum_pos t w p lo e (hi - 1)
  let rec ghost row_same (h h' g: basicGraph) (p: int -> bool) (v st hi: int)
    requires { row_kept h g p v st hi /\ forall i. st <= i < st + psum (tgf g) ones p (first g v) hi -> tgf h i = tgf h' i /\ wtf h i = wtf h' i }
    variant { hi - first g v }
    ensures { row_kept h' g p v st hi }
  = if hi > pure { first g v } then begin
      psum_le (pure { tgf g }) (pure { ones }) p p (pure { first g v }) (hi - 1);
      row_same h h' g p v st (hi - 1) end
  let ghost cnt_inj (p: int -> bool) (a b: int)
    requires { 0 <= a /\ 0 <= b /\ p a /\ p b /\ a <> b } ensures { cnt p a <> cnt p b }
  = if a < b then cnt_mono p a b else cnt_mono p b a
  predicate induced (h g: basicGraph) (p: int -> bool) =
    nn h = cnt p (nn g) /\
    forall v. 0 <= v < nn g -> p v ->
      last h (cnt p v) = first h (cnt p v) + vsum g ones p v /\ row_kept h g p v (first h (cnt p v)) (last g v)
}}}

fn strongly_connected_components::explicit_scc_dfs sig "unsignedint,std::shared_ptr<graph_access>" as scc_dfs(node, gr)
  requires csr gr.f_graphref /\ undirected gr.f_graphref /\ has_vertex gr node
  requires settled this gr.f_graphref /\ this.m_dfsnum[node] = -1
  ensures settled this gr.f_graphref /\ gr = old gr
  ensures this.m_comp_num[node] <> -1 /\ this.m_fpid = (old this).m_fpid
  ensures forall v. has_vertex gr v -> (old this).m_dfsnum[v] <> -1 -> this.m_comp_num[v] = (old this).m_comp_num[v] /\ this.m_dfsnum[v] = (old this).m_dfsnum[v]
  at_entry let ghost ref pos = pure { fun (v: int) -> first gr.f_graphref v } in let ghost ref s2 = pure { this } in let ghost ref e2 = 0 in
      vis_less (pure { this.m_dfsnum }) (pure { nn gr.f_graphref }) node
  loop 1
    before begin vis_upd (pure { (old this).m_dfsnum }) (pure { this.m_dfsnum }) (pure { nn gr.f_graphref }) node;
       vis_less (pure { (old this).m_dfsnum }) (pure { nn gr.f_graphref }) node;
       assert { on_stack this.f_iteration_stack node by this.f_iteration_stack[0].p_u32_u64_1 = node };
       assert { numbering this gr.f_graphref (old this).m_dfscount };
       assert { roots_ok this gr.f_graphref (old this).m_dfscount node };
       assert { forall v. has_vertex gr v -> fresh this (old this).m_dfscount v -> v = node };
       assert { search this (old this) gr.f_graphref node pos };
       assert { stack_ok this gr.f_graphref (old this).m_dfscount pos } end
    invariant length this.f_iteration_stack > 0 -> resting this (old this) gr.f_graphref node pos
    invariant length this.f_iteration_stack = 0 -> finished_search this (old this) gr.f_graphref node
    invariant this.m_dfscount <= nn gr.f_graphref
    variant nn gr.f_graphref - this.m_dfscount, length this.f_iteration_stack
  loop 2
    before assert { below this current_node }
    invariant holding this (old this) gr.f_graphref node current_node pos
    invariant this.m_dfsnum = (this at $L).m_dfsnum /\ this.m_dfscount = (this at $L).m_dfscount
    invariant this.f_iteration_stack = (this at $L).f_iteration_stack
    invariant pos current_node = $2 <= last gr.f_graphref current_node
    variant last gr.f_graphref current_node - $2
    begin begin s2 <- pure { this }; e2 <- $2; if pure { this.m_dfsnum[tg gr.f_graphref e2] = -1 } then vis_less (pure { this.m_dfsnum }) (pure { nn gr.f_graphref }) (pure { tg gr.f_graphref e2 }) end
    end begin let ghost p0 = pos in pos <- pure { Map.set pos current_node (e2 + 1) };
       scan_edge s2 (pure { this }) (pure { old this }) (pure { gr.f_graphref }) node current_node e2 p0 pos end
    after if pure { this.m_dfscount <> (this at $L).m_dfscount } then discover s2 (pure { this }) (pure { old this }) (pure { gr.f_graphref }) node current_node e2 pos
       else complete (pure { this }) (pure { old this }) (pure { gr.f_graphref }) node current_node pos
  loop 3
    invariant 0 < length this.m_roots <= length (this at $L).m_roots
    invariant forall i. 0 <= i < length this.m_roots -> this.m_roots[i] = (this at $L).m_roots[i]
    variant length this.m_roots
  loop 4
    begin assert { let k = length this.m_unfinished - 1 in let w = this.m_unfinished[k] in
       0 <= w < nn gr.f_graphref /\ fresh this (old this).m_dfscount w /\ this.m_dfsnum[w] = (old this).m_dfscount + k /\
       forall v. 0 <= v < nn gr.f_graphref -> v <> w -> fresh this (old this).m_dfscount v -> this.m_dfsnum[v] - (old this).m_dfscount <> k }
    before begin assert { current_node = node }; assert { forall v. has_vertex gr v -> this.m_comp_num[v] = (old this).m_comp_num[v] }; assert { forall v. has_vertex gr v -> fresh this (old this).m_dfscount v -> pos v = last gr.f_graphref v };
       assert { forall v e. 0 <= v < nn gr.f_graphref -> fresh this (old this).m_dfscount v -> arc gr.f_graphref v e -> this.m_dfsnum[tg gr.f_graphref e] <> -1 };
       assert { numbering this gr.f_graphref (old this).m_dfscount /\ length this.m_unfinished > 0 /\ this.m_unfinished[0] = node }  end
    invariant 0 < length this.m_unfinished <= length (this at $L).m_unfinished
    invariant forall i. 0 <= i < length this.m_unfinished -> this.m_unfinished[i] = (this at $L).m_unfinished[i]
    invariant forall v. 0 <= v < nn gr.f_graphref -> this.m_comp_num[v] =
       if fresh this (old this).m_dfscount v /\ this.m_dfsnum[v] - (old this).m_dfscount >= length this.m_unfinished then this.m_comp_count else (old this).m_comp_num[v]
    variant length this.m_unfinished
  at_exit begin
    assert { root_of this gr.f_graphref node };
    assert { forall v. has_vertex gr v -> (old this).m_comp_num[v] <> -1 -> this.m_comp_num[v] = (old this).m_comp_num[v] /\ this.m_dfsnum[v] = (old this).m_dfsnum[v] };
    assert { forall v. has_vertex gr v -> 0 <= this.m_comp_num[v] < (old this).m_comp_count -> this.m_comp_num[v] = (old this).m_comp_num[v] };
    keep_roots (pure { old this }) (pure { this }) (pure { gr.f_graphref });
    assert { rooted this gr.f_graphref } end


fn strongly_connected_components::strong_components sig "~graph_access" as scc_all(gr, cn)
  requires csr gr.f_graphref /\ undirected gr.f_graphref /\ length cn = nn gr.f_graphref
  requires length this.m_unfinished = 0 /\ length this.m_roots = 0 /\ length this.f_iteration_stack = 0
  ensures gr = old gr /\ length cn = nn gr.f_graphref
  ensures components gr.f_graphref cn result
  ensures length this.m_unfinished = 0 /\ length this.m_roots = 0 /\ length this.f_iteration_stack = 0
  ensures 0 <= result <= nn gr.f_graphref
  loop 1
    invariant 0 <= $1 <= nn gr.f_graphref
    invariant length this.m_dfsnum = nn gr.f_graphref /\ length this.m_comp_num = nn gr.f_graphref
    invariant this.m_dfscount = 0 /\ this.m_comp_count = 0
    invariant this.m_unfinished = (old this).m_unfinished /\ this.m_roots = (old this).m_roots /\ this.f_iteration_stack = (old this).f_iteration_stack
    invariant forall v. 0 <= v < $1 -> this.m_comp_num[v] = -1 /\ this.m_dfsnum[v] = -1
    variant nn gr.f_graphref - $1
  loop 2
    before vis_none (pure { this.m_dfsnum }) (pure { nn gr.f_graphref })
    invariant 0 <= $2 <= nn gr.f_graphref
    invariant settled this gr.f_graphref
    invariant forall v. 0 <= v < $2 -> this.m_dfsnum[v] <> -1
    variant nn gr.f_graphref - $2
    after all_found (pure { this }) (pure { gr.f_graphref })
  loop 3
    invariant 0 <= $3 <= nn gr.f_graphref
    invariant length cn = nn gr.f_graphref /\ forall v. 0 <= v < $3 -> cn[v] = this.m_comp_num[v]
    variant nn gr.f_graphref - $3

fn graph_extractor::extract_block sig "std::shared_ptr<graph_access>,unsignedint" as extract(gr, b)
  requires wf gr /\ noloops gr.f_graphref
  ensures gr = old gr
  ensures wf result.p_qgraph_access_vu32_1 /\ induced result.p_qgraph_access_vu32_1.f_graphref gr.f_graphref (block gr.f_graphref b)
  at_entry let ghost g0 = pure { gr.f_graphref } in let ghost p = pure { block g0 b } in let ghost nv = pure { nn g0 } in let ghost ref hf = pure { g0 } in
    let ghost ref st = pure { fun (_:int) -> 0 } in let ghost total = pure { length g0.m_edges } in
    esum_part (pure { g0.m_edges }) total 0 0;
    let lemma rank (v: int) requires { 0 <= v <= nv } ensures { 0 <= cnt p v <= cnt p nv /\ (v < nv -> p v -> cnt p v < cnt p nv /\ cnt p (v + 1) = cnt p v + 1) }
      = cnt_mono p v nv in ()
  at_exit begin
    let ghost h1 = pure { $result.p_qgraph_access_vu32_1.f_graphref } in
    assert { forall v. 0 <= v <= cnt p nv -> first h1 v = st v };
    let lemma rows (v: int) requires { 0 <= v < nv /\ p v }
      ensures { last h1 (cnt p v) = first h1 (cnt p v) + vsum g0 ones p v /\ row_kept h1 g0 p v (first h1 (cnt p v)) (last g0 v) }
      = assert { first h1 (cnt p v) = st (cnt p v) /\ last h1 (cnt p v) = st (cnt p v + 1) }; row_same hf h1 g0 p v (pure { first h1 (cnt p v) }) (pure { last g0 v }) in
    () end
  loop 1
    invariant 0 <= $1 <= nv /\ length reverse_mapping = $1 /\ nodes = cnt p $1
    invariant forall v. 0 <= v < $1 -> reverse_mapping[v] = if p v then cnt p v else nv + 1
    variant nv - $1
  loop 2
    invariant 0 <= $2 <= nv
    invariant gbuilding extracted_block /\ nn extracted_block.f_graphref = nodes /\ extracted_block.f_graphref.f_node = cnt p $2
    invariant extracted_block.f_graphref.m_last_source < cnt p $2
    invariant st 0 = 0 /\ st (cnt p $2) = length extracted_block.f_graphref.m_edges <= first g0 $2
    invariant forall u v. 0 <= u <= v <= cnt p $2 -> 0 <= st u <= st v
    invariant forall u. 0 <= u <= extracted_block.f_graphref.m_last_source -> first extracted_block.f_graphref u = st u
    invariant forall u. extracted_block.f_graphref.m_last_source < u <= cnt p $2 -> st u = length extracted_block.f_graphref.m_edges
    invariant forall v. 0 <= v < $2 -> p v -> st (cnt p v + 1) = st (cnt p v) + vsum g0 ones p v /\ row_kept extracted_block.f_graphref g0 p v (st (cnt p v)) (last g0 v)
    invariant esum extracted_block.f_graphref.m_edges 0 (length extracted_block.f_graphref.m_edges) <= esum g0.m_edges 0 (first g0 $2)
    variant nv - $2
    begin esum_split (pure { g0.m_edges }) 0 (pure { first g0 $2 }) (pure { last g0 $2 });
      esum_part (pure { g0.m_edges }) total (pure { first g0 $2 }) (pure { last g0 $2 });
      let ghost ha = pure { extracted_block.f_graphref } in let ghost v0 = pure { $2 } in let ghost st0 = st in
      let lemma ranks (v: int) requires { 0 <= v < v0 /\ p v } ensures { cnt p v + 1 <= cnt p v0 } = cnt_mono p (v + 1) v0 in ()
    end if pure { p v0 } then begin
        let ghost hb = pure { extracted_block.f_graphref } in
        st <- Map.set st (cnt p (v0 + 1)) (pure { length hb.m_edges });
        let lemma prev (v: int) requires { 0 <= v < v0 /\ p v }
          ensures { st (cnt p v + 1) = st (cnt p v) + vsum g0 ones p v /\ row_kept hb g0 p v (st (cnt p v)) (last g0 v) }
          = assert { st0 (cnt p v + 1) <= length ha.m_edges }; assert { cnt p v + 1 <= cnt p v0 };
            assert { st (cnt p v) = st0 (cnt p v) /\ st (cnt p v + 1) = st0 (cnt p v + 1) };
            assert { row_kept ha g0 p v (st (cnt p v)) (last g0 v) };
            row_same ha hb g0 p v (pure { st (cnt p v) }) (pure { last g0 v }) in
        assert { st (cnt p v0) = length ha.m_edges };
        assert { row_kept hb g0 p v0 (st (cnt p v0)) (last g0 v0) }
      end
    after hf <- pure { extracted_block.f_graphref }; esum_part (pure { g0.m_edges }) total 0 (pure { first g0 nv })
  loop 3
    before let ghost f0 = pure { first g0 v0 } in let ghost l0 = pure { last g0 v0 } in let ghost s0 = pure { length ha.m_edges } in ()
    invariant f0 <= $3 <= l0
    invariant gbuilding extracted_block /\ nn extracted_block.f_graphref = nodes /\ extracted_block.f_graphref.f_node = cnt p v0 + 1
    invariant extracted_block.f_graphref.m_last_source <= cnt p v0
    invariant length extracted_block.f_graphref.m_edges = s0 + psum (tgf g0) ones p f0 $3
    invariant s0 <= length extracted_block.f_graphref.m_edges <= $3
    invariant forall i. 0 <= i < s0 -> extracted_block.f_graphref.m_edges[i] = ha.m_edges[i]
    invariant forall u. 0 <= u <= extracted_block.f_graphref.m_last_source -> first extracted_block.f_graphref u = st u
    invariant forall u. extracted_block.f_graphref.m_last_source < u <= cnt p v0 -> st u = length extracted_block.f_graphref.m_edges
    invariant length extracted_block.f_graphref.m_edges > s0 -> extracted_block.f_graphref.m_last_source = cnt p v0
    invariant row_kept extracted_block.f_graphref g0 p v0 s0 $3
    invariant esum extracted_block.f_graphref.m_edges 0 (length extracted_block.f_graphref.m_edges) <= esum g0.m_edges 0 $3
    variant l0 - $3
    begin let ghost hc = pure { extracted_block.f_graphref } in let ghost e0 = pure { $3 } in let ghost lc = pure { length hc.m_edges } in
      assert { tgf g0 e0 <> v0 /\ 0 <= tgf g0 e0 < nv };
      if pure { p (tgf g0 e0) } then cnt_inj p v0 (pure { tgf g0 e0 })
    end begin
      assert { not p (tgf g0 e0) -> extracted_block.f_graphref = hc };
      if pure { p (tgf g0 e0) } then begin
        assert { length extracted_block.f_graphref.m_edges = lc + 1 };
        assert { forall i. 0 <= i < lc -> extracted_block.f_graphref.m_edges[i] = hc.m_edges[i] };
        row_same hc (pure { extracted_block.f_graphref }) g0 p v0 s0 e0;
        assert { tgf extracted_block.f_graphref lc = cnt p (tgf g0 e0) /\ wtf extracted_block.f_graphref lc = wtf g0 e0 };
        assert { row_kept extracted_block.f_graphref g0 p v0 s0 (e0 + 1) };
        esum_same (pure { extracted_block.f_graphref.m_edges }) (pure { hc.m_edges }) 0 lc
      end else begin
        assert { extracted_block.f_graphref = hc };
        assert { row_kept hc g0 p v0 s0 (e0 + 1) }
      end end


fn strongly_connected_components::largest_scc as scc_largest(gr)
  requires wf gr /\ noloops gr.f_graphref /\ undirected gr.f_graphref /\ nn gr.f_graphref > 0
  requires length this.m_unfinished = 0 /\ length this.m_roots = 0 /\ length this.f_iteration_stack = 0
  ensures wf gr /\ gr.f_graphref.m_edges = (old gr).f_graphref.m_edges /\ gr.f_graphref.m_nodes = (old gr).f_graphref.m_nodes
  (* the result is induced by the vertices marked 0, they form a component, and no component is larger *)
  ensures wf result /\ induced result.f_graphref gr.f_graphref (block gr.f_graphref 0)
  ensures is_largest gr.f_graphref (block gr.f_graphref 0)
  at_entry let ghost g0 = pure { gr.f_graphref } in let ghost nv = pure { nn g0 } in ()
  loop 1
    invariant 0 <= $1 <= nv /\ length compsizes = ct
    invariant forall c. 0 <= c < ct -> compsizes[c] = cnt (eqc components c) $1
    variant nv - $1
  loop 2
    before let lemma sizes (c: int) requires { 0 <= c < ct } ensures { cnt (eqc components c) nv <= cnt (eqc components max_comp) nv } = () in
      let ghost gb = pure { gr.f_graphref } in ()
    invariant 0 <= $2 <= nv /\ wf gr /\ gr.f_graphref.m_edges = g0.m_edges /\ gr.f_graphref.m_nodes = g0.m_nodes
    invariant forall v. 0 <= v < $2 -> (block gr.f_graphref 0 v <-> components[v] = max_comp)
    variant nv - $2
    after largest_block g0 (pure { gr.f_graphref }) components ct max_comp
