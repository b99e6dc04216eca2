#pragma once
#include <cstddef>
#include <cstdint>
#include <utility>
namespace third_party_cityhash {
uint64_t CityHash64WithSeed(const char* s, size_t n, uint64_t seed);
std::pair<uint64_t, uint64_t> CityHash128WithSeed(const char* s, size_t n, std::pair<uint64_t, uint64_t> seed);
}
