// A simulated TensorFlow behind cppflow's interface (the part pdftotext++ uses): an external party
// whose behaviour - including failing to load, throwing, and answering nonsense - the scenario owns.
#ifndef SIM_CPPFLOW_H_
#define SIM_CPPFLOW_H_
#include <cstdint>
#include <initializer_list>
#include <stdexcept>
#include <string>
#include <tuple>
#include <vector>

namespace cppflow {

class tensor {
 public:
  tensor() {}
  tensor(const std::vector<float>& v, const std::vector<int64_t>& s) : f(v), dims(s) { kind = 0; }
  tensor(const std::vector<int>& v, const std::vector<int64_t>& s) : i(v), dims(s) { kind = 1; }
  tensor shape() const {
    tensor t;
    t.kind = 2;
    t.l = dims;
    t.dims = { static_cast<int64_t>(dims.size()) };
    return t;
  }
  template <typename T> std::vector<T> get_data() const;
  int kind = 0;
  std::vector<float> f;
  std::vector<int> i;
  std::vector<int64_t> l;
  std::vector<int64_t> dims;
};

template <> inline std::vector<float> tensor::get_data<float>() const { return f; }
template <> inline std::vector<int64_t> tensor::get_data<int64_t>() const { return l; }
template <> inline std::vector<int> tensor::get_data<int>() const { return i; }

class model {
 public:
  explicit model(const std::string& path);
  ~model();
  std::vector<tensor> operator()(
    std::vector<std::tuple<std::string, tensor>> inputs, std::vector<std::string> outputs);
};

}  // namespace cppflow
#endif
