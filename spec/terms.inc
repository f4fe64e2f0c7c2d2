// Reference semantics of the term-by-term construction.

// d/dz of sign * prod f(p) * prod G: product rule over the Fermi functions, then
// over the Green's functions that depend on the pole's frequency (G' = -alpha G G).
// Results are appended.
void take_term_derivative(AmiBase &self, T::term &in, T::pole_struct &pole, T::terms &out) {
  for (int i = 0; i < in.p_list.size(); i++) {
    T::term t = in;
    t.p_list[i].der_ = in.p_list[i].der_ + 1;
    out.push_back(t);
  }
  for (int i = 0; i < in.g_list.size(); i++) {
    int a = in.g_list[i].alpha_[pole.index_];
    if (a == 0) continue;
    T::term t;
    t.sign = -(double)a * in.sign;
    t.p_list = in.p_list;
    for (int m = 0; m < in.g_list.size(); m++) {
      t.g_list.push_back(in.g_list[m]);
      if (m == i) t.g_list.push_back(in.g_list[m]);
    }
    out.push_back(t);
  }
}

// residue of a term at a pole of multiplicity M
void terms_general_residue(AmiBase &self, T::term &in, T::pole_struct pole, T::terms &out) {
  T::term w;
  w.sign = in.sign * get_starting_sign(self, in.g_list, pole);
  w.g_list = reduce_gprod(self, in.g_list, pole);
  w.p_list.push_back(pole);
  T::terms cur;
  cur.push_back(w);
  for (int m = 0; m < pole.multiplicity_ - 1; m++) {
    T::terms next;
    for (int i = 0; i < cur.size(); i++) take_term_derivative(self, cur[i], pole, next);
    cur = next;
  }
  out.clear();
  for (int i = 0; i < cur.size(); i++) {
    T::term t;
    t.sign = cur[i].sign;
    for (int j = 0; j < cur[i].g_list.size(); j++)
      t.g_list.push_back(update_G_pole(self, cur[i].g_list[j], pole));
    t.p_list = cur[i].p_list;
    for (int j = 0; j < in.p_list.size(); j++) t.p_list.push_back(in.p_list[j]);
    out.push_back(t);
  }
}

// one contour integral of every term, at every pole
void integrate_step(AmiBase &self, int index, T::terms &in, T::terms &out) {
  out.clear();
  for (int k = 0; k < in.size(); k++) {
    T::pole_array_t poles = find_poles(self, index, in[k].g_list);
    for (int i = 0; i < poles.size(); i++) {
      if (poles[i].multiplicity_ == 1) {
        T::term t;
        t.sign = in[k].sign * get_simple_sign(self, index, in[k].g_list, poles[i]);
        t.g_list = simple_residue(self, in[k].g_list, poles[i]);
        t.p_list = in[k].p_list;
        t.p_list.push_back(poles[i]);
        out.push_back(t);
      } else {
        T::terms ts;
        terms_general_residue(self, in[k], poles[i], ts);
        for (int j = 0; j < ts.size(); j++) out.push_back(ts[j]);
      }
    }
  }
}

void construct(AmiBase &self, int N, T::g_prod_t R0, T::terms &out) {
  T::term first;
  first.sign = 1.0;
  first.g_list = R0;
  T::terms cur;
  cur.push_back(first);
  for (int index = 0; index < N; index++) {
    T::terms next;
    integrate_step(self, index, cur, next);
    cur = next;
  }
  out = cur;
}

void construct(AmiBase &self, T::ami_parms &parms, T::g_prod_t R0, T::terms &out) {
  construct(self, parms.N_INT_, R0, out);
}

// the factors without / with a dependence on the pole's frequency
void split_term(AmiBase &self, T::term &in, T::pole_struct pole, T::term &inert, T::term &active) {
  T::g_prod_t ig, ag;
  T::pole_array_t ip, ap;
  for (int i = 0; i < in.g_list.size(); i++)
    if (in.g_list[i].alpha_[pole.index_] == 0) ig.push_back(in.g_list[i]);
    else ag.push_back(in.g_list[i]);
  for (int i = 0; i < in.p_list.size(); i++)
    if (in.p_list[i].alpha_[pole.index_] == 0) ip.push_back(in.p_list[i]);
    else ap.push_back(in.p_list[i]);
  inert.sign = in.sign;
  active.sign = 1.0;
  inert.g_list = ig;
  inert.p_list = ip;
  active.g_list = ag;
  active.p_list = ap;
}
