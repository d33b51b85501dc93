#ifndef VERIF_TF2_TIME_H
#define VERIF_TF2_TIME_H
#include <verif_tf2.hpp>
#endif
