// Parameter lists of scenarios: {"name": {"t": "d|i|s|b|a|as|ai|l", ...}}.
#pragma once
#include "drv.hpp"
#include <Teuchos_ParameterList.hpp>
namespace drv {
inline Teuchos::ParameterList plist(const json& p)
{
    Teuchos::ParameterList r;
    for (auto it = p.begin(); it != p.end(); ++it) {
        std::string t = it.value()["t"];
        const json& v = it.value()[t == "d" ? "v" : t];
        if (t == "d") r.set<Plato::Scalar>(it.key(), num(v));
        else if (t == "i") r.set<int>(it.key(), v.get<int>());
        else if (t == "b") r.set<bool>(it.key(), v.get<bool>());
        else if (t == "s") r.set<std::string>(it.key(), v.get<std::string>());
        else if (t == "a") { Teuchos::Array<Plato::Scalar> a; for (auto& x : v) a.push_back(num(x)); r.set(it.key(), a); }
        else if (t == "as") { Teuchos::Array<std::string> a; for (auto& x : v) a.push_back(x.get<std::string>()); r.set(it.key(), a); }
        else if (t == "ai") { Teuchos::Array<int> a; for (auto& x : v) a.push_back(x.get<int>()); r.set(it.key(), a); }
        else r.set(it.key(), plist(v));
    }
    return r;
}
} // namespace drv
