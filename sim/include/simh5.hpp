// Oracle-side view of the simulated durable storage.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
namespace sim {
struct H5Data {
  std::vector<uint64_t> dims;
  bool is_float = false;
  int elem_bytes = 8;
  std::vector<double> d;  // when is_float
  std::vector<int64_t> i; // otherwise
  std::vector<char> written; // per element: has been written
  bool has_attr_dims = false;
};
// true when the file exists, is closed and can be opened
bool h5_readable(const std::string &file);
bool h5_exists(const std::string &file);
bool h5_is_open(const std::string &file);
bool h5_get(const std::string &file, const std::string &path, H5Data &out);
bool h5_get_attr(const std::string &file, const std::string &path, H5Data &out, std::string &str);
std::vector<std::string> h5_list(const std::string &file, const std::string &group);
uint64_t h5_open_handles();
uint64_t io_ops();
} // namespace sim
