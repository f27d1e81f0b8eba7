#pragma once
namespace tosca::evmzero::internal {
inline constexpr const char* kCompilerId = ""; inline constexpr const char* kCompilerVersion = "";
inline constexpr const char* kBuildType = ""; inline constexpr const char* kCompileDefinitions = "";
inline constexpr const char* kCompileOptions = "";
inline constexpr const char* kAssertions = ""; inline constexpr const char* kAsan = "";
inline constexpr const char* kMimalloc = ""; inline constexpr const char* kTracy = "";
}
