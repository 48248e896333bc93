#ifndef VF_CUDA_FP16_H_
#define VF_CUDA_FP16_H_
struct half { unsigned short v; };
#endif
