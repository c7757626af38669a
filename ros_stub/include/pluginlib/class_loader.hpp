#pragma once
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
namespace pluginlib
{
template<class Base> std::map<std::string, std::function<std::shared_ptr<Base>()>> & simros_registry()
{
  static std::map<std::string, std::function<std::shared_ptr<Base>()>> r;
  return r;
}
template<class Base> class ClassLoader
{
public:
  ClassLoader(const std::string &, const std::string &) {}
  std::shared_ptr<Base> createSharedInstance(const std::string & n)
  {
    auto & r = simros_registry<Base>();
    auto it = r.find(n);
    if (it == r.end()) {throw std::runtime_error("no such plugin " + n);}
    return it->second();
  }
};
}
