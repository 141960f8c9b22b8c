#pragma once
// Reads the ndjson inputs a TLA+ model emitted.
#include <nlohmann/json.hpp>
#include <fstream>
#include <vector>
namespace verif {
using Json = nlohmann::json;
inline std::vector<Json> read_inputs(const std::string &path) {
  std::vector<Json> out;
  std::ifstream f(path);
  std::string line;
  while (std::getline(f, line))
    if (!line.empty())
      out.push_back(Json::parse(line));
  return out;
}
} // namespace verif
