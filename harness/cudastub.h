// A minimal device: an execution is found unfinished once, unless `ready` is set; its time is dev_ms.
#pragma once
#include "sym.h"
#include <cuda_runtime.h>
static int dev_ready = 0; static float dev_ms = 3.f;
struct Ev { bool alive, recorded; int late; };
static Ev ev[64]; static int nev = 0, live = 0;
static Ev &E(cudaEvent_t e) { int i = (int)(long)e - 1; sym_assert(i >= 0 && i < nev && ev[i].alive, "a timer is not used after its release"); return ev[i]; }
extern "C" {
cudaError_t cudaEventCreateWithFlags(cudaEvent_t *e, unsigned) { ev[nev] = Ev{true, false, 0}; *e = (cudaEvent_t)(long)(++nev); live++; return cudaSuccess; }
cudaError_t cudaEventCreate(cudaEvent_t *e) { return cudaEventCreateWithFlags(e, 0); }
cudaError_t cudaEventDestroy(cudaEvent_t e) { E(e).alive = false; live--; return cudaSuccess; }
cudaError_t cudaEventRecord(cudaEvent_t e, cudaStream_t) { E(e).recorded = true; return cudaSuccess; }
cudaError_t cudaEventQuery(cudaEvent_t e) { return dev_ready || E(e).late++ ? cudaSuccess : cudaErrorNotReady; }
cudaError_t cudaEventSynchronize(cudaEvent_t e) { E(e).late++; return cudaSuccess; }
cudaError_t cudaEventElapsedTime(float *ms, cudaEvent_t, cudaEvent_t b) { if (!dev_ready && !E(b).late++) return cudaErrorNotReady; *ms = dev_ms; return cudaSuccess; }
const char *cudaGetErrorString(cudaError_t) { return "device error"; }
}
