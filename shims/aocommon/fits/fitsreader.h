// Stand-in: images can not be read here; a named reader.
#pragma once
#include <string>
#include "../uvector.h"
namespace aocommon {
class FitsReader {
 public:
  FitsReader() = default;
  explicit FitsReader(const std::string& filename) : filename_(filename) {}
  const std::string& Filename() const { return filename_; }
 private:
  std::string filename_;
};
}  // namespace aocommon
