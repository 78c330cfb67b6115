// Automatic training happens exactly when configured.
#include "common.h"
#ifndef STEPS
#define STEPS 4
#endif
extern "C" void sym_main() {
  int g = pick(0, STEPS + 1, "gperiod"), p = pick(0, STEPS + 1, "rperiod"), mn = sym_int("mindata"); int kind = pick(0, 1, "kind"), pat = pick(0, 1, "pattern");
  Apollo::instance(); Config::APOLLO_GLOBAL_TRAIN_PERIOD = g; Config::APOLLO_PER_REGION_TRAIN_PERIOD = p;
  const char *mi[] = {"DecisionTree,max_depth=3", "RandomForest,num_trees=2", "RoundRobin"};
  Apollo::Region *r[2] = {new Apollo::Region(1, "one", 3, mn, mi[kind]), new Apollo::Region(1, "two", 2, mn, "DecisionTree")};
  bool trained[2] = {false, false}; int cnt[2] = {0, 0}, total = 0, data[2] = {0, 0};
  sym_assert(r[0]->model->isTrainable() && r[1]->model->isTrainable(), "explores at first");
  for (int s = 0; s < STEPS; s++) {
    int w = s ? pick(0, 1, "which") : 0; FV f; f.push_back((float)(pat ? s % 2 + 1 : 1));
    auto *c = r[w]->begin(f); int pol = r[w]->getPolicyIndex(c); sym_observe(pol);
    if (!trained[w]) { sym_assert(pol == cnt[w] % r[w]->num_policies, "explores until trained"); }
    r[w]->end(c, (double)(s + 1)); cnt[w]++; total++;
    for (int i = 0; i < 2; i++) data[i] = (int)r[i]->dataset.size(); // C14 decides what is recorded
    if (!trained[w]) {
      int byG = (int)(g > 0) & (int)(total % (int)sym_ite32(g > 0, g, 1) == 0), byP = (int)(p > 0) & (int)(cnt[w] % (int)sym_ite32(p > 0, p, 1) == 0), byN = (int)(mn > 0) & (int)(mn <= data[w]);
      if (byG) { for (int i = 0; i < 2; i++) if (data[i] > 0) trained[i] = true; sym_reach("global period"); }
      else if (byP) { trained[w] = true; sym_reach("region period"); }
      else if (byN) { trained[w] = true; sym_reach("minimum data"); }
    }
    for (int i = 0; i < 2; i++) sym_assert(r[i]->model->isTrainable() == !trained[i], "trained when and only when the trigger is reached");
  }
  if (!trained[0]) sym_reach("never triggered");
  // once trained it keeps answering from the trained model and is not retrained
  if (trained[0]) {
    int before[2]; for (int i = 0; i < 2; i++) { FV f; f.push_back((float)(i + 1)); before[i] = r[0]->model->getIndex(f); }
    for (int q = 0; q < 2; q++) for (int i = 0; i < 2; i++) { FV f; f.push_back((float)(i + 1)); auto *c = r[0]->begin(f); sym_assert(r[0]->getPolicyIndex(c) == before[i], "keeps answering from the trained model"); r[0]->end(c, q ? 1e-9 : 1e9); }
    sym_reach("kept");
  }
}
