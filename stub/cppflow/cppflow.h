// A stand-in for cppflow (https://github.com/serizba/cppflow), which, like TensorFlow, is not
// available offline. It offers exactly the part of the API that pdftotext++ uses. The "neural
// network" is replaced by a hook: a deterministic function of the two input tensors, which a test
// can replace (to choose the predicted roles) and which lets a test observe the inputs.
#ifndef PPV_CPPFLOW_STUB_H_
#define PPV_CPPFLOW_STUB_H_

#include <cstdint>
#include <functional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <vector>

namespace cppflow {

class tensor {
 public:
  tensor() = default;

  template <typename T>
  tensor(const std::vector<T>& values, const std::vector<int64_t>& shape) : _shape(shape) {
    int64_t n = 1;
    for (int64_t s : shape) { n *= s; }
    if (n != static_cast<int64_t>(values.size())) {
      throw std::runtime_error("tensor: number of values does not match the shape");
    }
    for (const T& v : values) { _values.push_back(static_cast<double>(v)); }
  }

  tensor shape() const {
    return tensor(_shape, { static_cast<int64_t>(_shape.size()) });
  }

  template <typename T>
  std::vector<T> get_data() const {
    std::vector<T> res;
    for (double v : _values) { res.push_back(static_cast<T>(v)); }
    return res;
  }

  std::vector<int64_t> _shape;
  std::vector<double> _values;
};

/** One call of the (fake) model, as observed by the hook. */
struct Call {
  std::vector<double> layout;
  int64_t layoutRows = 0;
  int64_t layoutCols = 0;
  std::vector<double> words;
  int64_t wordsRows = 0;
  int64_t wordsCols = 0;
};

/** Computes the output matrix (rows x 14) from the inputs. */
typedef std::function<std::vector<float>(const Call&)> Hook;

/** By default: a deterministic role per block, derived from the encoded words of the block. */
inline std::vector<float> defaultHook(const Call& c) {
  std::vector<float> out;
  for (int64_t r = 0; r < c.wordsRows; r++) {
    uint64_t h = 1469598103934665603ull;
    for (int64_t k = 0; k < c.wordsCols; k++) {
      h = (h ^ static_cast<uint64_t>(c.words[r * c.wordsCols + k] + 1)) * 1099511628211ull;
    }
    uint64_t role = (h >> 20) % 14;
    for (uint64_t k = 0; k < 14; k++) {
      out.push_back(k == role ? 0.6f : 0.4f / 13);
    }
  }
  return out;
}

inline Hook& hook() {
  static Hook h = defaultHook;
  return h;
}

class model {
 public:
  explicit model(const std::string& dir) : _dir(dir) {}

  std::vector<tensor> operator()(const std::vector<std::tuple<std::string, tensor>>& inputs,
      const std::vector<std::string>& outputs) {
    Call c;
    for (const auto& in : inputs) {
      const tensor& t = std::get<1>(in);
      if (t._shape.size() != 2) { throw std::runtime_error("model: inputs must be matrices"); }
      if (std::get<0>(in).find("layout") != std::string::npos) {
        c.layout = t._values; c.layoutRows = t._shape[0]; c.layoutCols = t._shape[1];
      } else {
        c.words = t._values; c.wordsRows = t._shape[0]; c.wordsCols = t._shape[1];
      }
    }
    std::vector<float> out = hook()(c);
    int64_t rows = c.layoutRows;
    int64_t cols = rows > 0 ? static_cast<int64_t>(out.size()) / rows : 14;
    return std::vector<tensor>(outputs.size(), tensor(out, { rows, cols }));
  }

 private:
  std::string _dir;
};

}  // namespace cppflow

#endif  // PPV_CPPFLOW_STUB_H_
