#include <rclcpp/rclcpp.hpp>
