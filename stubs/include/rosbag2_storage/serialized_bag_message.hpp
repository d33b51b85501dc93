#include <rosbag2_cpp/verif_bag.hpp>
