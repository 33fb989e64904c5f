#pragma once
#include <stdexec/execution.hpp>
namespace exec {
template <class Sigs> struct any_receiver_ref { template <class... Q> using any_sender = ::stdexec::shim::any_sender; };
}
