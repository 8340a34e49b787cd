#include "engbox.hpp"
#include <algorithm>
namespace sim {
std::vector<EngSpec>& eng_registry() { static std::vector<EngSpec> v; return v; }
EngReg::EngReg(const EngSpec& s) { eng_registry().push_back(s); }
const std::vector<EngSpec>& engines() {
    static bool sorted = false; std::vector<EngSpec>& v = eng_registry();
    if (!sorted) { std::sort(v.begin(), v.end(), [](const EngSpec& a, const EngSpec& b) { return std::strcmp(a.name, b.name) < 0; }); sorted = true; }
    return v;
}
}
