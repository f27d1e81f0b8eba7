// Stub of the (absent) ethash dependency: Keccak-256 is an uninterpreted function of the byte sequence.
#pragma once
#include <cstddef>
#include <cstdint>
#include "vc.h"
namespace ethash {
union hash256 { uint64_t word64s[4]; uint32_t word32s[8]; uint8_t bytes[32]; char str[32]; };
inline hash256 keccak256(const uint8_t* data, size_t size) noexcept {
  hash256 h;
  __vc_ufseq("keccak256", &h, 32, data, size);
  return h;
}
}
extern "C" inline ethash::hash256 ethash_keccak256(const uint8_t* data, size_t size) noexcept { return ethash::keccak256(data, size); }
