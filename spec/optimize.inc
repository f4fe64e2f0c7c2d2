// Reference semantics of the factorisation.

int sg(int x) { return (0 < x) - (x < 0); }

// two factors are the same up to one overall sign
bool g_struct_equiv(AmiBase &self, T::g_struct &a, T::g_struct &b, int &sign) {
  sign = 0;
  if (a.eps_.size() != b.eps_.size() || a.alpha_.size() != b.alpha_.size() || a.species_ != b.species_)
    return false;
  std::vector<int> s;
  for (int i = 0; i < a.eps_.size(); i++) {
    if (std::abs(a.eps_[i]) != std::abs(b.eps_[i])) return false;
    if (a.eps_[i] != 0) s.push_back(sg(a.eps_[i] / b.eps_[i]));
  }
  for (int i = 0; i < a.alpha_.size(); i++) {
    if (std::abs(a.alpha_[i]) != std::abs(b.alpha_[i])) return false;
    if (a.alpha_[i] != 0) s.push_back(sg(a.alpha_[i] / b.alpha_[i]));
  }
  for (int i = 0; i + 1 < s.size(); i++)
    if (s[i] != s[i + 1]) return false;
  sign = s.size() == 0 ? 1 : s[s.size() - 1];
  return true;
}

// two products use the same factors (each at most once), in any order
bool pair_v_equiv(AmiBase &self, T::ref_v_t &a, T::ref_v_t &b, int &sa, int &sb) {
  sa = 0;
  sb = 0;
  if (a.size() != b.size()) return false;
  std::vector<int> unused(b.size(), 1);
  int pa = 1, pb = 1;
  for (int i = 0; i < a.size(); i++) {
    bool found = false;
    for (int j = 0; j < b.size(); j++)
      if (a[i].first == b[j].first && unused[j] == 1) {
        found = true;
        unused[j] = 0;
      }
    if (!found) return false;
    pa *= a[i].second;
    pb *= b[i].second;
  }
  sa = pa;
  sb = pb;
  return true;
}

// group equal products; a group lists its members with their signs, and the
// product of the first member stands for the group
void reduce_rref(AmiBase &self, T::R_ref_t &Rref, T::ref_eval_t &Eval_list) {
  std::vector<int> used;
  for (int i = 0; i < Rref.size(); i++) {
    if (std::find(used.begin(), used.end(), i) != used.end()) continue;
    used.push_back(i);
    T::ref_v_t group;
    int s = 1;
    for (int p = 0; p < Rref[i].size(); p++) s = s * Rref[i][p].second;
    group.push_back(std::make_pair(i, s));
    for (int j = i + 1; j < Rref.size(); j++) {
      if (std::find(used.begin(), used.end(), j) != used.end()) continue;
      int s1, s2;
      if (pair_v_equiv(self, Rref[i], Rref[j], s1, s2)) {
        used.push_back(j);
        group.push_back(std::make_pair(j, s2));
      }
    }
    Eval_list.push_back(group);
  }
  T::R_ref_t out;
  for (int i = 0; i < Eval_list.size(); i++) {
    T::ref_v_t v;
    for (int j = 0; j < Rref[Eval_list[i][0].first].size(); j++)
      v.push_back(std::make_pair(Rref[Eval_list[i][0].first][j].first, 1));
    out.push_back(v);
  }
  Rref = out;
}

void factorize_Rn(AmiBase &self, T::Ri_t &Rn, T::g_prod_t &unique_g, T::R_ref_t &Rref,
                  T::ref_eval_t &Eval_list) {
  T::g_prod_t u;
  T::R_ref_t r;
  for (int i = 0; i < Rn.size(); i++) {
    T::ref_v_t v;
    for (int j = 0; j < Rn[i].size(); j++) {
      bool found = false;
      for (int m = 0; m < u.size(); m++) {
        int s = 0;
        if (g_struct_equiv(self, Rn[i][j], u[m], s)) {
          v.push_back(std::make_pair(m, s));
          found = true;
          break;
        }
      }
      if (!found) {
        u.push_back(Rn[i][j]);
        v.push_back(std::make_pair(u.size() - 1, 1));
      }
    }
    r.push_back(v);
  }
  unique_g = u;
  Rref = r;
  Eval_list.clear();
  reduce_rref(self, Rref, Eval_list);
}

void convert_terms_to_ri(AmiBase &self, T::terms &ts, T::Ri_t &Ri) {
  Ri.clear();
  for (int i = 0; i < ts.size(); i++) Ri.push_back(ts[i].g_list);
}

void factorize_terms(AmiBase &self, T::terms &ts, T::g_prod_t &unique_g, T::R_ref_t &Rref,
                     T::ref_eval_t &Eval_list) {
  T::Ri_t Ri;
  convert_terms_to_ri(self, ts, Ri);
  factorize_Rn(self, Ri, unique_g, Rref, Eval_list);
}

// d/dz of every product with respect to the external frequency
void derivative_opt(AmiBase &self, T::g_prod_t &unique_g, T::R_ref_t &Rref, T::ref_eval_t &Eval_list) {
  T::R_ref_t nr;
  T::ref_eval_t ne;
  for (int n = 0; n < Rref.size(); n++) {
    for (int p = 0; p < Rref[n].size(); p++) {
      int a = unique_g[Rref[n][p].first].alpha_.back();
      if (a == 0) continue;
      T::ref_v_t prod;
      for (int k = 0; k < Rref[n].size(); k++) {
        prod.push_back(Rref[n][k]);
        if (k == p) {
          T::ref_t q = Rref[n][p];
          q.second = -a * Rref[n][p].second;
          prod.push_back(q);
        }
      }
      T::ref_v_t el;
      for (int m = 0; m < Eval_list[n].size(); m++)
        el.push_back(std::make_pair(Eval_list[n][m].first, (int)(Eval_list[n][m].second * (double)(-a))));
      nr.push_back(prod);
      ne.push_back(el);
    }
  }
  Rref = nr;
  Eval_list = ne;
}
