#include "types.h"
void register_types_c(std::map<std::string, std::unique_ptr<TypeOps>> &m) {
  reg<float>(m, "f4");
  reg<double>(m, "f8");
  reg<std::complex<float>>(m, "c8");
}
