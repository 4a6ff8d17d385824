#include "types.h"
void register_types_b(std::map<std::string, std::unique_ptr<TypeOps>> &m) {
  reg<std::int32_t>(m, "i4");
  reg<std::uint32_t>(m, "u4");
  reg<std::int64_t>(m, "i8");
  reg<std::uint64_t>(m, "u8");
}
