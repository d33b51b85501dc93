#ifndef VERIF_RCLCPP_COMPONENTS
#define VERIF_RCLCPP_COMPONENTS
#define RCLCPP_COMPONENTS_REGISTER_NODE(T)
#endif
