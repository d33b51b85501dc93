#include <verif_tf2.hpp>
