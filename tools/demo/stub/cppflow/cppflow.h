// A stand-in for TensorFlow: rates, for the i-th block, the role that DEMO_ROLES ("8", "1,5,9": used in
// turn) names; fails if DEMO_MODEL is "fail", does not load if it is "missing", ...
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <initializer_list>
#include <stdexcept>
#include <string>
#include <tuple>
#include <vector>

namespace cppflow {
class tensor {
 public:
  tensor() {}
  tensor(const std::vector<float>& v, const std::vector<int64_t>& s) : f(v), dims(s) {}
  tensor(const std::vector<int>& v, const std::vector<int64_t>& s) : i(v), dims(s) {}
  tensor shape() const {
    tensor t;
    t.l = dims;
    return t;
  }
  template <typename T> std::vector<T> get_data() const;
  std::vector<float> f;
  std::vector<int> i;
  std::vector<int64_t> l;
  std::vector<int64_t> dims;
};
template <> inline std::vector<float> tensor::get_data<float>() const { return f; }
template <> inline std::vector<int64_t> tensor::get_data<int64_t>() const { return l; }
template <> inline std::vector<int> tensor::get_data<int>() const { return i; }

class model {
 public:
  explicit model(const std::string&) {
    if (mode() == "missing") { throw std::runtime_error("no model"); }
  }
  static std::string mode() {
    const char* m = getenv("DEMO_MODEL");
    return m ? m : "";
  }
  std::vector<tensor> operator()(
      std::vector<std::tuple<std::string, tensor>> in, std::vector<std::string>) {
    if (mode() == "fail") { throw std::runtime_error("the model failed"); }
    int64_t n = std::get<1>(in[0]).dims[0];
    if (const char* log = getenv("DEMO_MODEL_LOG")) {
      if (FILE* f = fopen(log, "a")) {
        fprintf(f, "%lld\n", static_cast<long long>(n));
        fclose(f);
      }
    }
    std::vector<int> roles;
    const char* r = getenv("DEMO_ROLES");
    for (const char* q = r && *r ? r : "8"; ; ) {
      char* e;
      roles.push_back(strtol(q, &e, 10));
      if (*e != ',') { break; }
      q = e + 1;
    }
    // "words": the role goes by the sum of the tokens of the block.
    const std::vector<int>& words = std::get<1>(in[1]).i;
    int64_t perBlock = n > 0 ? static_cast<int64_t>(words.size()) / n : 0;
    const int64_t k = 14;
    std::vector<float> out(n * k);
    for (int64_t b = 0; b < n; b++) {
      int64_t role = roles[b % roles.size()];
      if (mode() == "words") {
        role = 0;
        for (int64_t j = 0; j < perBlock; j++) { role += words[b * perBlock + j] * (j + 1); }
        role = ((role % k) + k) % k;
      }
      for (int64_t j = 0; j < k; j++) {
        out[b * k + j] = j == role ? 0.75f : 0.01f;
      }
    }
    return { tensor(out, { n, k }) };
  }
};
}  // namespace cppflow
