// Stand-in for kernel_test, which has its own check (C11): returns A*B for a row-major B.
#pragma once
#include <cstddef>
#include <cstdint>
#include <vector>
namespace kernel_test {
struct kernel_test {
  std::size_t N; std::vector<double> &A, &B; uint64_t repetitions;
  kernel_test(std::size_t N, std::vector<double> &A, std::vector<double> &B, bool, uint64_t repetitions, uint64_t) : N(N), A(A), B(B), repetitions(repetitions) {}
  std::vector<double> matrix_multiply(); // in the harness
};
}
