// Instantiates the library's public entry points for the type combinations it
// supports, so that the analyses see every template the way a client would.
#include <cpuinfo.h>

#include <cstdint>

#include "ruy/context.h"
#include "ruy/matrix.h"
#include "ruy/mul_params.h"
#include "ruy/path.h"
#include "ruy/ruy.h"
#include "ruy/thread_pool.h"

namespace verif_probe {

#define PROBE_MUL(NAME, L, R, A, D)                                        \
  void NAME(const ruy::Matrix<L>& lhs, const ruy::Matrix<R>& rhs,          \
            const ruy::MulParams<A, D>& params, ruy::Context* context,     \
            ruy::Matrix<D>* dst) {                                         \
    ruy::Mul(lhs, rhs, params, context, dst);                              \
  }

PROBE_MUL(mul_f32, float, float, float, float)
PROBE_MUL(mul_f64, double, double, double, double)
PROBE_MUL(mul_i8_u8, std::int8_t, std::int8_t, std::int32_t, std::uint8_t)
PROBE_MUL(mul_i8_i8, std::int8_t, std::int8_t, std::int32_t, std::int8_t)
PROBE_MUL(mul_i8_i16, std::int8_t, std::int8_t, std::int32_t, std::int16_t)
PROBE_MUL(mul_i8_i32, std::int8_t, std::int8_t, std::int32_t, std::int32_t)
PROBE_MUL(mul_u8_u8, std::uint8_t, std::uint8_t, std::int32_t, std::uint8_t)
PROBE_MUL(mul_u8_i32, std::uint8_t, std::uint8_t, std::int32_t, std::int32_t)
PROBE_MUL(mul_u8_i8, std::uint8_t, std::int8_t, std::int32_t, std::int16_t)

PROBE_MUL(mul_i16_i8, std::int16_t, std::int8_t, std::int32_t, std::int16_t)

// The same with other sets of compiled code paths than the default one.
#define PROBE_MUL_PATHS(NAME, PATHS, L, R, A, D)                           \
  void NAME(const ruy::Matrix<L>& lhs, const ruy::Matrix<R>& rhs,          \
            const ruy::MulParams<A, D>& params, ruy::Context* context,     \
            ruy::Matrix<D>* dst) {                                         \
    ruy::Mul<PATHS>(lhs, rhs, params, context, dst);                       \
  }

PROBE_MUL_PATHS(mulp_std, ruy::Path::kStandardCpp, float, float, float, float)
PROBE_MUL_PATHS(mulp_avx, ruy::Path::kStandardCpp | ruy::Path::kAvx,
                std::int8_t, std::int8_t, std::int32_t, std::int8_t)
PROBE_MUL_PATHS(mulp_two, ruy::Path::kAvx2Fma | ruy::Path::kAvx512, float,
                float, float, float)
PROBE_MUL_PATHS(mulp_all, ruy::kAllPathsIncludingInternalVariants, std::uint8_t,
                std::uint8_t, std::int32_t, std::uint8_t)

struct ProbeTask final : ruy::Task {
  void Run() override;
  char payload[32];
};
void pool_execute(ruy::ThreadPool* pool, int n, ProbeTask* tasks) {
  pool->Execute(n, tasks);
}
void pool_destroy(ruy::ThreadPool* pool) { delete pool; }
ruy::ThreadPool* pool_create() { return new ruy::ThreadPool; }

ruy::Context* context_create() { return new ruy::Context; }
void context_destroy(ruy::Context* c) { delete c; }

// Makes the compiler describe the layout of the processor features.
bool isa_layout(const cpuinfo_x86_isa* isa) { return isa->avx; }

}  // namespace verif_probe

template class ruy::MulParams<std::int32_t, std::int8_t>;
