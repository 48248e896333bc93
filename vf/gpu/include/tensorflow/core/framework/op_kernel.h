// Registers the GPU kernels for the CPU device, with the monitors around Compute.
#ifndef VF_OP_KERNEL_H_
#define VF_OP_KERNEL_H_
#include_next "tensorflow/core/framework/op_kernel.h"
#include "cuda_runtime.h"
namespace vf {
void begin(tensorflow::OpKernel* k, tensorflow::OpKernelContext* c);
void end(tensorflow::OpKernel* k, tensorflow::OpKernelContext* c);
tensorflow::Status allocate_temp(tensorflow::OpKernelContext* c, tensorflow::DataType t,
  const tensorflow::TensorShape& s, tensorflow::Tensor* o, tensorflow::AllocatorAttributes a = tensorflow::AllocatorAttributes());
const cudaStream_t& stream();
template <class Op> class Wrap : public Op {
 public:
  explicit Wrap(tensorflow::OpKernelConstruction* c) : Op(c) {}
  void Compute(tensorflow::OpKernelContext* c) override {
    begin(this, c); Op::Compute(c); end(this, c);
  }
};
}
#undef REGISTER_KERNEL_BUILDER
#define REGISTER_KERNEL_BUILDER(kernel_builder, ...) \
  REGISTER_KERNEL_BUILDER_IMPL(kernel_builder, false, ::vf::Wrap<__VA_ARGS__>)
#define DEVICE_GPU DEVICE_CPU
#endif
