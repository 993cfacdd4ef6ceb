// Accessors of the public classes as clients use them, one function each.
#include <cstdint>
#include <limits>

#include "ruy/context.h"
#include "ruy/matrix.h"
#include "ruy/mul_params.h"
#include "ruy/strategy_controls.h"
#include "ruy/tune.h"

namespace verif_api {

#define OPTION(NAME, CLASS, OPT, TYPE, SETTER, GETTER)                         \
  void NAME##__##OPT##__set(CLASS* o, TYPE v) { o->SETTER(v); }                \
  TYPE NAME##__##OPT##__get(const CLASS* o) { return o->GETTER(); }            \
  TYPE NAME##__##OPT##__back(CLASS* o, TYPE v) {                               \
    o->SETTER(v);                                                              \
    return o->GETTER();                                                        \
  }
#define NEUTRAL(NAME, CLASS, OPT, GETTER, VALUE)                               \
  bool NAME##__##OPT##__new() {                                                \
    CLASS o;                                                                   \
    return o.GETTER() == VALUE;                                                \
  }
#define SIMPLE(NAME, CLASS, OPT, TYPE) OPTION(NAME, CLASS, OPT, TYPE, set_##OPT, OPT)

#define MATRIX(NAME, SCALAR)                                                   \
  using NAME = ruy::Matrix<SCALAR>;                                            \
  void NAME##__data__set(NAME* o, SCALAR* v) { o->set_data(v); }               \
  const SCALAR* NAME##__data__get(const NAME* o) { return o->data(); }         \
  const SCALAR* NAME##__data__back(NAME* o, SCALAR* v) {                       \
    o->set_data(v);                                                            \
    return o->data();                                                          \
  }                                                                            \
  const SCALAR* NAME##__cdata__back(NAME* o, const SCALAR* v) {                \
    o->set_data(v);                                                            \
    return static_cast<const NAME*>(o)->data();                                \
  }                                                                            \
  const SCALAR* NAME##__cdata__get(const NAME* o) { return o->data(); }        \
  SIMPLE(NAME, NAME, zero_point, SCALAR)                                       \
  SIMPLE(NAME, NAME, cache_policy, ruy::CachePolicy)                           \
  OPTION(NAME, NAME, rows, int, mutable_layout()->set_rows, layout().rows)     \
  OPTION(NAME, NAME, cols, int, mutable_layout()->set_cols, layout().cols)     \
  OPTION(NAME, NAME, stride, int, mutable_layout()->set_stride,                \
         layout().stride)                                                      \
  OPTION(NAME, NAME, order, ruy::Order, mutable_layout()->set_order,           \
         layout().order)                                                       \
  NEUTRAL(NAME, NAME, zero_point, zero_point, 0)                               \
  NEUTRAL(NAME, NAME, cache_policy, cache_policy,                              \
          ruy::CachePolicy::kNeverCache)

MATRIX(MatrixF32, float)
MATRIX(MatrixI8, std::int8_t)
MATRIX(MatrixU8, std::uint8_t)
MATRIX(MatrixI16, std::int16_t)

#define PARAMS(NAME, ACCUM, DST)                                               \
  using NAME = ruy::MulParams<ACCUM, DST>;                                     \
  SIMPLE(NAME, NAME, bias, const ACCUM*)                                       \
  SIMPLE(NAME, NAME, channel_dimension, ruy::ChannelDimension)                 \
  NEUTRAL(NAME, NAME, bias, bias, nullptr)                                     \
  NEUTRAL(NAME, NAME, channel_dimension, channel_dimension,                    \
          ruy::ChannelDimension::kRow)                                         \
  NEUTRAL(NAME, NAME, rounding, perchannel_buffers_capacity_rounding, 1)
#define CLAMPS(NAME, DST, LOW, HIGH)                                           \
  SIMPLE(NAME, NAME, clamp_min, DST)                                           \
  SIMPLE(NAME, NAME, clamp_max, DST)                                           \
  NEUTRAL(NAME, NAME, clamp_min, clamp_min, (LOW))                             \
  NEUTRAL(NAME, NAME, clamp_max, clamp_max, (HIGH))
#define MULTIPLIERS(NAME)                                                      \
  SIMPLE(NAME, NAME, multiplier_fixedpoint, std::int32_t)                      \
  SIMPLE(NAME, NAME, multiplier_exponent, int)                                 \
  SIMPLE(NAME, NAME, multiplier_fixedpoint_perchannel, const std::int32_t*)    \
  SIMPLE(NAME, NAME, multiplier_exponent_perchannel, const int*)               \
  NEUTRAL(NAME, NAME, multiplier_fixedpoint_perchannel,                        \
          multiplier_fixedpoint_perchannel, nullptr)                           \
  NEUTRAL(NAME, NAME, multiplier_exponent_perchannel,                          \
          multiplier_exponent_perchannel, nullptr)
#define INF(T) std::numeric_limits<T>::infinity()
#define ENDS(T) std::numeric_limits<T>::lowest(), std::numeric_limits<T>::max()

PARAMS(ParamsF32, float, float)
CLAMPS(ParamsF32, float, -INF(float), INF(float))
PARAMS(ParamsF64, double, double)
CLAMPS(ParamsF64, double, -INF(double), INF(double))
PARAMS(ParamsI8, std::int32_t, std::int8_t)
CLAMPS(ParamsI8, std::int8_t, -128, 127)
MULTIPLIERS(ParamsI8)
PARAMS(ParamsU8, std::int32_t, std::uint8_t)
CLAMPS(ParamsU8, std::uint8_t, 0, 255)
MULTIPLIERS(ParamsU8)
PARAMS(ParamsI16, std::int32_t, std::int16_t)
CLAMPS(ParamsI16, std::int16_t, -32768, 32767)
MULTIPLIERS(ParamsI16)
PARAMS(ParamsI32, std::int32_t, std::int32_t)

SIMPLE(Context, ruy::Context, explicit_tuning, ruy::Tuning)
SIMPLE(Context, ruy::Context, max_num_threads, int)
SIMPLE(Context, ruy::Context, num_threads_strategy, ruy::NumThreadsStrategy)

}  // namespace verif_api
