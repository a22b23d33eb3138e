// Speed only: the configuration code asserts for each tag and attribute name, through a freshly built
// std::regex, that it is in kebab style.  The answer is a pure function of the name; remember it.
#include <string>
#include <string_view>
#include <unordered_map>
#define NAME _ZN7precice5utils12isKebabStyleESt17basic_string_viewIcSt11char_traitsIcEE
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
extern "C" bool CAT(__real_, NAME)(std::string_view);
extern "C" bool CAT(__wrap_, NAME)(std::string_view s)
{
  static std::unordered_map<std::string, bool> m;
  auto it = m.find(std::string(s));
  if (it != m.end())
    return it->second;
  return m[std::string(s)] = CAT(__real_, NAME)(s);
}
