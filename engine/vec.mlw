(* Model of std::vector<T>: a length and a total map from indices.
   The drivers vc_z3.drv / vc_cvc5.drv interpret this theory natively as the
   SMT datatype (mkvec (vlen Int) (velts (Array Int T))), in which every axiom
   below is a theorem. *)
module Vec
  use int.Int
  use map.Map
  type vec 'a
  meta "encoding:ignore_polymorphism_ts" type vec
  function length (vec 'a) : int
  meta "encoding:ignore_polymorphism_ls" function length
  function elts (vec 'a) : int -> 'a
  meta "encoding:ignore_polymorphism_ls" function elts
  function mkvec int (int -> 'a) : vec 'a
  meta "encoding:ignore_polymorphism_ls" function mkvec
  axiom mk_len: forall n:int, e: (int -> 'a). length (mkvec n e) = n
  meta "encoding:ignore_polymorphism_pr" axiom mk_len
  axiom mk_elts: forall n:int, e: (int -> 'a). elts (mkvec n e) = e
  meta "encoding:ignore_polymorphism_pr" axiom mk_elts
  axiom mk_eta: forall v: vec 'a. mkvec (length v) (elts v) = v
  meta "encoding:ignore_polymorphism_pr" axiom mk_eta
  function ([]) (s: vec 'a) (i: int) : 'a
  meta "encoding:ignore_polymorphism_ls" function ([])
  axiom get_def: forall s: vec 'a, i. s[i] = Map.get (elts s) i
  meta "encoding:ignore_polymorphism_pr" axiom get_def
  function ([<-]) (s: vec 'a) (i: int) (v: 'a) : vec 'a
  meta "encoding:ignore_polymorphism_ls" function ([<-])
  axiom set_def: forall s: vec 'a, i v. s[i<-v] = mkvec (length s) (Map.set (elts s) i v)
  meta "encoding:ignore_polymorphism_pr" axiom set_def
  function push (s: vec 'a) (v: 'a) : vec 'a
  meta "encoding:ignore_polymorphism_ls" function push
  axiom push_def: forall s: vec 'a, v. push s v = mkvec (length s + 1) (Map.set (elts s) (length s) v)
  meta "encoding:ignore_polymorphism_pr" axiom push_def
  function pop (s: vec 'a) : vec 'a
  meta "encoding:ignore_polymorphism_ls" function pop
  axiom pop_def: forall s: vec 'a. pop s = mkvec (length s - 1) (elts s)
  meta "encoding:ignore_polymorphism_pr" axiom pop_def
end

(* Model of std::unordered_map with integer keys *)
module Umap
  use int.Int
  use map.Map
  type umap 'a
  meta "encoding:ignore_polymorphism_ts" type umap
  function dom (umap 'a) : int -> bool
  meta "encoding:ignore_polymorphism_ls" function dom
  function mp (umap 'a) : int -> 'a
  meta "encoding:ignore_polymorphism_ls" function mp
  function mkumap (int -> bool) (int -> 'a) : umap 'a
  meta "encoding:ignore_polymorphism_ls" function mkumap
  axiom mk_dom: forall d: (int -> bool), e: (int -> 'a). dom (mkumap d e) = d
  meta "encoding:ignore_polymorphism_pr" axiom mk_dom
  axiom mk_mp: forall d: (int -> bool), e: (int -> 'a). mp (mkumap d e) = e
  meta "encoding:ignore_polymorphism_pr" axiom mk_mp
  axiom mk_eta: forall v: umap 'a. mkumap (dom v) (mp v) = v
  meta "encoding:ignore_polymorphism_pr" axiom mk_eta
end
