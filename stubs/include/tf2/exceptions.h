#ifndef VERIF_TF2_EXCEPTIONS_H
#define VERIF_TF2_EXCEPTIONS_H
#include <verif_tf2.hpp>
#endif
