#ifndef VERIF_PLUGINLIB_MACROS
#define VERIF_PLUGINLIB_MACROS
#include <pluginlib/class_loader.hpp>
#define VERIF_PL_CAT2(a, b) a##b
#define VERIF_PL_CAT(a, b) VERIF_PL_CAT2(a, b)
#define PLUGINLIB_EXPORT_CLASS(D, B) \
  static ::pluginlib::VerifRegister<B> VERIF_PL_CAT(verif_reg_, __LINE__)(#D, \
    [] () -> std::shared_ptr<B> { return std::make_shared<D>(); });
#endif
