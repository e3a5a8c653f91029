// Stand-in: a facet that has a label.
#pragma once
#include <string>
namespace schaapcommon::facets {
class Facet {
 public:
  Facet() = default;
  explicit Facet(const std::string& label) : label_(label) {}
  const std::string& DirectionLabel() const { return label_; }
 private:
  std::string label_;
};
}  // namespace schaapcommon::facets
