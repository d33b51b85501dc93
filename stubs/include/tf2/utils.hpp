#ifndef VERIF_TF2_UTILS_HPP
#define VERIF_TF2_UTILS_HPP
#include <verif_tf2.hpp>
#endif
