// The heavy Eigen solvers, instantiated once in eig_*.cpp (they do not depend on
// /repo) and only declared in the harnesses, to keep the per-change build short.
#ifndef VERIF_EIG_HPP
#define VERIF_EIG_HPP
#include "mon.hpp"
#include <eigen3/Eigen/Core>
#include <eigen3/Eigen/Cholesky>
#include <eigen3/Eigen/Eigenvalues>
#include <eigen3/Eigen/QR>
#include <eigen3/Eigen/LU>
#include <eigen3/Eigen/SVD>
#ifndef EIG_X
#define EIG_X extern
#endif
#ifndef EIG_PART
#define EIG_PART 0
#endif
#if EIG_PART == 0 || EIG_PART == 1
EIG_X template class Eigen::BDCSVD<Eigen::MatrixXd>;
#endif
#if EIG_PART == 0 || EIG_PART == 2
EIG_X template class Eigen::JacobiSVD<Eigen::MatrixXd>;
#endif
#if EIG_PART == 0 || EIG_PART == 3
EIG_X template class Eigen::EigenSolver<Eigen::MatrixXd>;
EIG_X template class Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd>;
#endif
#if EIG_PART == 0 || EIG_PART == 4
EIG_X template class Eigen::PartialPivLU<Eigen::MatrixXd>;
EIG_X template class Eigen::HouseholderQR<Eigen::MatrixXd>;
EIG_X template class Eigen::LLT<Eigen::MatrixXd>;
#endif
#endif
