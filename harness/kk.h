// The Kokkos side of the connector: declarations of its entry points and of variables.
#pragma once
#include "common.h"
#include <impl/Kokkos_Profiling_Interface.hpp>
using namespace Kokkos::Tools::Experimental;
extern "C" {
void kokkosp_init_library(const int, const uint64_t, const uint32_t, void *);
void kokkosp_declare_output_type(const char *, const size_t, VariableInfo *);
void kokkosp_declare_input_type(const char *, const size_t, VariableInfo *);
void kokkosp_request_values(size_t, size_t, VariableValue *, size_t, VariableValue *);
void kokkosp_end_context(size_t);
}
static VariableInfo *kk_info(ValueType t, CandidateValueType q) {
  VariableInfo *i = new VariableInfo(); memset((void *)i, 0, sizeof *i); i->type = t; i->category = StatisticalCategory::kokkos_value_categorical; i->valueQuantity = q; return i;
}
static VariableValue kk_value(size_t id, VariableInfo *i, int64_t def = -77) {
  VariableValue v; memset((void *)&v, 0, sizeof v); v.type_id = id; v.metadata = i; v.value.int_value = def; return v;
}
// an integer variable with the values base, base+1, ...
static VariableInfo *kk_set(const char *name, size_t id, int n, int64_t base) {
  VariableInfo *i = kk_info(ValueType::kokkos_value_int64, CandidateValueType::kokkos_value_set); int64_t *a = new int64_t[n + 1];
  for (int k = 0; k < n; k++) a[k] = base + k;
  i->candidates.set.size = n; i->candidates.set.values.int_value = a; kokkosp_declare_output_type(name, id, i); return i;
}
