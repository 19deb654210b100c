#pragma once
#include <arpa/inet.h>
#include <cstdint>
#include <string>
#include <array>
namespace score::os
{
class Ipv4Address
{
  public:
    Ipv4Address() = default;
    Ipv4Address(const std::string& s) { in_addr x{}; if (::inet_pton(AF_INET, s.c_str(), &x) == 1) a_ = x.s_addr; }
    std::uint32_t GetAddress() const { return a_; } std::array<std::uint8_t,4> ToIpv4Bytes() const { std::array<std::uint8_t,4> b{}; __builtin_memcpy(b.data(), &a_, 4); return b; }
    std::string ToString() const { char b[32]{}; in_addr x{}; x.s_addr = a_; ::inet_ntop(AF_INET, &x, b, sizeof b); return b; }
    friend bool operator==(const Ipv4Address& a, const Ipv4Address& b) { return a.a_ == b.a_; }
  private:
    std::uint32_t a_{0};
};
}  // namespace score::os
