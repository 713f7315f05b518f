include algorithms/global_mincut/minimum_cut_helpers.h
import graph_access
extra template class minimum_cut_helpers<std::shared_ptr<graph_access>>;
class minimum_cut_helpers<std::shared_ptr<graph_access>>
assume fn configuration::getConfig as cfg_get
  reason singleton holding the run options; reading it has no effect and every combination of options is considered

fn minimum_cut_helpers<std::shared_ptr<graph_access>>::minimumIndex as mh_idx(g)

fn minimum_cut_helpers<std::shared_ptr<graph_access>>::setInitialCutValues as mh_init(gs)

fn minimum_cut_helpers<std::shared_ptr<graph_access>>::updateCut as mh_upd(gs, pm)

fn minimum_cut_helpers<std::shared_ptr<graph_access>>::retrieveMinimumCut as mh_ret(gs)

fn minimum_cut_helpers<std::shared_ptr<graph_access>>::remap_cluster as mh_remap(g, c)

fn minimum_cut_helpers<std::shared_ptr<graph_access>>::setVertexLocations as mh_loc
