#include "types.h"
void register_types_a(std::map<std::string, std::unique_ptr<TypeOps>> &m) {
  reg<std::int8_t>(m, "i1");
  reg<std::uint8_t>(m, "u1");
  reg<std::int16_t>(m, "i2");
  reg<std::uint16_t>(m, "u2");
}
