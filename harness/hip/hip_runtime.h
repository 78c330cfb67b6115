// Stand-in declarations of the HIP event interface (the real header is not installed).
#pragma once
struct ihipEvent_t;
typedef ihipEvent_t *hipEvent_t;
typedef void *hipStream_t;
typedef enum hipError_e { hipSuccess = 0, hipErrorInvalidValue = 1, hipErrorInvalidResourceHandle = 400, hipErrorNotReady = 600 } hipError_t;
#define hipEventDefault 0x00
#define hipEventBlockingSync 0x01
#define hipEventDisableTiming 0x02
extern "C" {
hipError_t hipEventCreate(hipEvent_t *);
hipError_t hipEventCreateWithFlags(hipEvent_t *, unsigned);
hipError_t hipEventDestroy(hipEvent_t);
hipError_t hipEventRecord(hipEvent_t, hipStream_t);
hipError_t hipEventQuery(hipEvent_t);
hipError_t hipEventSynchronize(hipEvent_t);
hipError_t hipEventElapsedTime(float *, hipEvent_t, hipEvent_t);
const char *hipGetErrorString(hipError_t);
}
