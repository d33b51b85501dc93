#ifndef VERIF_TF2_UTILS_H
#define VERIF_TF2_UTILS_H
#include <verif_tf2.hpp>
#endif
