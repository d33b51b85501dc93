// Stand-in for pluginlib: a process-wide registry of factories.
#ifndef VERIF_PLUGINLIB_LOADER
#define VERIF_PLUGINLIB_LOADER
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
namespace pluginlib
{
struct PluginlibException : public std::runtime_error { using std::runtime_error::runtime_error; };
struct LibraryLoadException : public PluginlibException { using PluginlibException::PluginlibException; };
struct CreateClassException : public PluginlibException { using PluginlibException::PluginlibException; };
template <class Base>
inline std::map<std::string, std::function<std::shared_ptr<Base>()>> & verif_registry()
{
  static std::map<std::string, std::function<std::shared_ptr<Base>()>> r;
  return r;
}
template <class Base>
struct VerifRegister
{
  VerifRegister(const std::string & name, std::function<std::shared_ptr<Base>()> f)
  {
    verif_registry<Base>()[name] = f;
  }
};
template <class Base>
class ClassLoader
{
public:
  ClassLoader(const std::string &, const std::string &) {}
  std::shared_ptr<Base> createSharedInstance(const std::string & name)
  {
    auto it = verif_registry<Base>().find(name);
    if (it == verif_registry<Base>().end()) throw CreateClassException("no plugin " + name);
    return it->second();
  }
  bool isClassAvailable(const std::string & name) { return verif_registry<Base>().count(name) > 0; }
  std::vector<std::string> getDeclaredClasses() { std::vector<std::string> v; for (auto & k : verif_registry<Base>()) v.push_back(k.first); return v; }
};
}  // namespace pluginlib
#endif
