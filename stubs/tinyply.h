#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <memory>
#include <istream>
#include <ostream>
namespace tinyply {
enum class Type : uint8_t { INVALID, INT8, UINT8, INT16, UINT16, INT32, UINT32, FLOAT32, FLOAT64 };
class Buffer { public: uint8_t *get(); const uint8_t *get_const(); size_t size_bytes() const; private: uint8_t *p_; size_t n_; };
struct PlyData { Type t; Buffer buffer; size_t count {0}; bool isList {false}; };
struct PlyFile {
  PlyFile(); ~PlyFile();
  bool parse_header(std::istream &is);
  void read(std::istream &is);
  void write(std::ostream &os, bool isBinary);
  std::vector<std::string> &get_comments();
  std::shared_ptr<PlyData> request_properties_from_element(const std::string &elementKey, const std::vector<std::string> propertyKeys, const uint32_t list_size_hint = 0);
  void add_properties_to_element(const std::string &elementKey, const std::vector<std::string> propertyKeys, const Type type, const size_t count, const uint8_t *data, const Type listType, const size_t listCount);
};
}
