#pragma once
#include "../../../scripted.hpp"
namespace mllm::models::qwen3 {
struct Qwen3Session final : Scripted {
  Qwen3Session() : Scripted("q-") {}
};
}  // namespace mllm::models::qwen3
