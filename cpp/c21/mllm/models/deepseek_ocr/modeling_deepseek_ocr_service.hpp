#pragma once
#include "../../../scripted.hpp"
namespace mllm::models::deepseek_ocr {
struct DeepseekOCRSession final : Scripted {
  DeepseekOCRSession() : Scripted("o-") {}
};
}  // namespace mllm::models::deepseek_ocr
