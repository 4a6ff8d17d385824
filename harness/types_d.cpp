#include "types.h"
void register_types_d(std::map<std::string, std::unique_ptr<TypeOps>> &m) {
  reg<std::complex<double>>(m, "c16");
  reg<npy::boolean>(m, "b1");
  reg<std::wstring>(m, "U");
}
