// json-schema-validator is not available here: validation accepts everything.
#include <nlohmann/json.hpp>
#include "schema_validation.hpp"
namespace Aux::schema {
  void validate_json(nlohmann::json const &) {}
  void validate_json(nlohmann::json const &, std::string const &) {}
  void validate_json(nlohmann::json const &, nlohmann::json const &) {}
  void apply_defaults(nlohmann::json &, nlohmann::json const &) {}
}
