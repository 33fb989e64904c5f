// What the C interface needs of the library besides its service.
#pragma once
#include "mllm/utils/Common.hpp"
#include "mllm/utils/Log.hpp"
namespace mllm {
inline int calls[4];
inline void initializeContext() { calls[0]++; }
inline void shutdownContext() { calls[1]++; }
inline void memoryReport() { calls[2]++; }
inline void setLogLevel(const LogLevel& level) { calls[3] = (int)level; }
}  // namespace mllm
