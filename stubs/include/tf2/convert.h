#ifndef VERIF_TF2_CONVERT_H
#define VERIF_TF2_CONVERT_H
#include <verif_tf2.hpp>
#endif
