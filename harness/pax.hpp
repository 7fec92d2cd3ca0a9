// Interface between harnesses and the abstract interpreter: none of these is ever defined.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
std::uint8_t pax_u8(const char* name) noexcept;
std::uint16_t pax_u16(const char* name) noexcept;
std::uint32_t pax_u32(const char* name) noexcept;
std::uint64_t pax_u64(const char* name) noexcept;
bool pax_bool(const char* name) noexcept;
void pax_assume(bool) noexcept;
void pax_key(std::uint64_t) noexcept;                        // never merge different partitions of this input
void pax_out(const char* name, std::uint64_t v) noexcept;     // result to be compared with the oracle
void pax_event(const char* name, ...) noexcept;               // observable step
const void* pax_buf(const char* name, std::size_t elem, std::size_t n) noexcept; // read-only text of n elements
void* pax_obj(const char* name, std::size_t size) noexcept;   // unknown writable object
void pax_sink(std::uint64_t) noexcept;                       // consumes a value
void pax_havoc(void*) noexcept;
void pax_freeze(const char* name, const void*) noexcept;           // from here on, writing to this object is an alarm
void pax_thaw(const char* name) noexcept;                          // unfreezes all objects
}
