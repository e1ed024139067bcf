/* Shared helpers of the verification harnesses: harness functions only build the objects through their public interface,
 * fill and read back their contents, and call the function under contract. */
#pragma once
#include "mlrl/common/data/types.hpp"
#include <cstring>
#include <memory>
#define VF_COPY(dst, src, n) std::memcpy((void*) (dst), (const void*) (src), sizeof(*(src)) * (size_t) (n))
