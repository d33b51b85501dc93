#ifndef VERIF_TF2_ROS_BUFFER_H
#define VERIF_TF2_ROS_BUFFER_H
#include <verif_tf2.hpp>
#endif
