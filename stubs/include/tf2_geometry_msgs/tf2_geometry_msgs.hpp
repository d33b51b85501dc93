#ifndef VERIF_TF2_GEOMETRY_MSGS_TF2_GEOMETRY_MSGS_HPP
#define VERIF_TF2_GEOMETRY_MSGS_TF2_GEOMETRY_MSGS_HPP
#include <verif_tf2.hpp>
#endif
