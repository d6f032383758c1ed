#pragma once
// the constructors taking plain pointers, of the version of g2o the library was written for
#include <memory>
#include_next <g2o/core/block_solver.h>
#include_next <g2o/core/optimization_algorithm_gauss_newton.h>
namespace g2o {
template <typename Traits>
class PlainBlockSolver : public BlockSolver<Traits>
{
public:
  typedef BlockSolver<Traits> Base;
  explicit PlainBlockSolver(typename Base::LinearSolverType *l) : Base(std::unique_ptr<typename Base::LinearSolverType>(l)) {}
};
class PlainGaussNewton : public OptimizationAlgorithmGaussNewton
{
public:
  explicit PlainGaussNewton(Solver *s) : OptimizationAlgorithmGaussNewton(std::unique_ptr<Solver>(s)) {}
};
}
#define BlockSolver PlainBlockSolver
#define OptimizationAlgorithmGaussNewton PlainGaussNewton
