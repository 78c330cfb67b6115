// The MPI library as seen by one rank: packing copies bytes (as on a homogeneous machine), the
// collective operations exchange what the harness provides for the other ranks.
#pragma once
#include <mpi.h>
#include <string.h>
#include <vector>
static int mpi_rank = 0, mpi_size = 1;
// contribution of every rank to the current exchange; a rank's own one is taken from its call
static std::vector<std::vector<char>> mpi_bytes;
static bool mpi_capture = false; static std::vector<char> mpi_mine; static int mpi_gathers = 0;
static int tsz(MPI_Datatype d) { return d == MPI_INT || d == MPI_FLOAT ? 4 : d == MPI_DOUBLE || d == MPI_LONG || d == MPI_UNSIGNED_LONG_LONG ? 8 : 1; }
extern "C" {
int MPI_Init(int *, char ***) { return 0; } int MPI_Finalize() { return 0; } int MPI_Initialized(int *f) { *f = 1; return 0; } int MPI_Finalized(int *f) { *f = 0; return 0; }
int MPI_Comm_dup(MPI_Comm, MPI_Comm *n) { *n = 93; return 0; } int MPI_Comm_free(MPI_Comm *n) { *n = 0; return 0; }
int MPI_Comm_rank(MPI_Comm, int *r) { *r = mpi_rank; return 0; } int MPI_Comm_size(MPI_Comm, int *s) { *s = mpi_size; return 0; }
int MPI_Type_size(MPI_Datatype d, int *s) { *s = tsz(d); return 0; }
int MPI_Pack_size(int n, MPI_Datatype d, MPI_Comm, int *s) { *s = n * tsz(d); return 0; }
int MPI_Pack(const void *in, int n, MPI_Datatype d, void *out, int size, int *pos, MPI_Comm) { int b = n * tsz(d); sym_assert(*pos >= 0 && *pos + b <= size, "packing stays inside the buffer"); memcpy((char *)out + *pos, in, b); *pos += b; return 0; }
int MPI_Unpack(const void *in, int size, int *pos, void *out, int n, MPI_Datatype d, MPI_Comm) { int b = n * tsz(d); sym_assert(*pos >= 0 && *pos + b <= size, "unpacking stays inside the received data"); memcpy(out, (const char *)in + *pos, b); *pos += b; return 0; }
int MPI_Barrier(MPI_Comm) { return 0; }
// the exchange of sizes
int MPI_Allgather(const void *s, int n, MPI_Datatype d, void *r, int rn, MPI_Datatype rd, MPI_Comm) {
  sym_assert(n * tsz(d) == 4 && rn * tsz(rd) == 4, "one int per rank is exchanged");
  for (int i = 0; i < mpi_size; i++) { int v; if (i == mpi_rank) memcpy(&v, s, 4); else v = i < (int)mpi_bytes.size() ? (int)mpi_bytes[i].size() : 0; memcpy((char *)r + 4 * i, &v, 4); }
  return 0;
}
int MPI_Allgatherv(const void *s, int n, MPI_Datatype d, void *r, const int *cnt, const int *disp, MPI_Datatype rd, MPI_Comm) {
  mpi_gathers++; int b = n * tsz(d);
  mpi_mine.assign((const char *)s, (const char *)s + b);
  for (int i = 0; i < mpi_size; i++) {
    const char *p = i == mpi_rank ? (const char *)s : i < (int)mpi_bytes.size() && !mpi_bytes[i].empty() ? &mpi_bytes[i][0] : nullptr; int m = i == mpi_rank ? b : i < (int)mpi_bytes.size() ? (int)mpi_bytes[i].size() : 0;
    sym_assert(cnt[i] * tsz(rd) == m, "the receive count of a rank is what that rank sends"); if (m) memcpy((char *)r + disp[i] * tsz(rd), p, m);
  }
  return 0;
}
}
