#ifndef VERIF_TF2_EIGEN_TF2_EIGEN_HPP
#define VERIF_TF2_EIGEN_TF2_EIGEN_HPP
#include <verif_tf2.hpp>
#endif
