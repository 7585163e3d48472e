// Stand-in for the header CMake generates.
#pragma once
#define VECMEM_VERSION_MAJOR 1
#define VECMEM_VERSION_MINOR 13
#define VECMEM_VERSION_PATCH 0
#define VECMEM_VERSION "1.13.0"
namespace vecmem {
static constexpr int version_major = 1;
static constexpr int version_minor = 13;
static constexpr int version_patch = 0;
static constexpr char version[] = "1.13.0";
}  // namespace vecmem
