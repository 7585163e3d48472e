// Stand-in for the header CMake generates (symbol visibility only).
#pragma once
#define VECMEM_CORE_EXPORT __attribute__((visibility("default")))
#define VECMEM_CORE_NO_EXPORT __attribute__((visibility("hidden")))
#define VECMEM_CORE_DEPRECATED __attribute__((__deprecated__))
#define VECMEM_CORE_DEPRECATED_EXPORT VECMEM_CORE_EXPORT VECMEM_CORE_DEPRECATED
#define VECMEM_CORE_DEPRECATED_NO_EXPORT VECMEM_CORE_NO_EXPORT VECMEM_CORE_DEPRECATED
