#ifndef VERIF_TF2_ROS_TRANSFORM_BROADCASTER_H
#define VERIF_TF2_ROS_TRANSFORM_BROADCASTER_H
#include <verif_tf2.hpp>
#endif
