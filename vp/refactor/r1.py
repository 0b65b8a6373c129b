# standard algorithms in place of loops, accumulations and conditions rewritten
E = []
def e(f, old, new, cnt=1): E.append((f, old, new, cnt))
P = "src/point.hpp"
e(P, "#include <array>", "#include <algorithm>\n#include <array>\n#include <functional>\n#include <numeric>")
e(P, """    Point<spatial_dimension, BaseType> sum{(*this)};
    sum += rhs;
    return sum;""", """    Point<spatial_dimension, BaseType> sum{};
    std::transform(this->begin(), this->end(), rhs.begin(), sum.begin(),
                   std::plus<>{});
    return sum;""")
e(P, """    for (unsigned int i = 0; i < spatial_dimension; i++) {
      (*this)[i] = (*this)[i] - rhs[i];
    }""", """    std::transform(this->begin(), this->end(), rhs.begin(), this->begin(),
                   [](const BaseType& a, const BaseType& b) { return a - b; });""")
e(P, """    Point inverted_point{(*this)};
    return inverted_point * static_cast<BaseType>(-1);""", """    Point inverted_point{};
    std::size_t i{};
    for (const auto& c : *this) inverted_point[i++] = -c;
    return inverted_point;""")
e(P, """    const BaseType factor{scale};
    for (unsigned int i = 0; i < spatial_dimension; ++i) (*this)[i] *= factor;""", """    const BaseType factor = scale;
    for (auto& coordinate : *this) coordinate = factor * coordinate;""")
e(P, """    const BaseType inv_scale{static_cast<BaseType>(1.) / scale};
    (*this) *= inv_scale;""", """    const BaseType divisor{scale};
    for (auto& coordinate : *this) coordinate /= divisor;""")
e(P, """    ScalarReturn result{};
    for (unsigned int i{}; i < spatial_dimension; i++) {
      result += (*this)[i] * point[i];
    }
    return result;""", """    return std::inner_product(this->begin(), this->end(), point.begin(),
                              ScalarReturn{});""")
e(P, """    BaseType norm{};
    for (unsigned int i{}; i < spatial_dimension; i++) {
      norm += (*this)[i] * (*this)[i];
    }
    return norm;""", """    return (*this) * (*this);""")
e(P, "return std::sqrt((*this).SquaredEuclidianNorm());", "using std::sqrt;\n    const BaseType squared{SquaredEuclidianNorm()};\n    return sqrt(squared);")
I = "src/utils/algorithms/int_power.hpp"
e(I, """  if (power == 0) return 1;
  if (power == 1) return base;

  const IntegralType half_power = power / 2;
  const IntegralType tmp = IntPower(base, half_power);
  if ((power % 2) == 0) {
    return tmp * tmp;
  } else {
    return base * tmp * tmp;
  }""", """  // Square and multiply from the most significant bit, so that no
  // intermediate result exceeds the final one
  IntegralType result{1};
  for (int bit = static_cast<int>(sizeof(IntegralType) * 8) - 1; bit >= 0;
       --bit) {
    result = static_cast<IntegralType>(result * result);
    if ((power >> bit) & 1) {
      result = static_cast<IntegralType>(result * base);
    }
  }
  return result;""")
S = "src/utils/algorithms/sort.hpp"
e(S, """  std::stable_sort(idx.begin(), idx.end(),
                   [&v](size_t i1, size_t i2) { return v[i1] < v[i2]; });""", """  std::sort(idx.begin(), idx.end(), [&v](size_t i1, size_t i2) {
    if (v[i1] < v[i2]) return true;
    if (v[i2] < v[i1]) return false;
    return i1 < i2;
  });""")
R = "src/utils/algorithms/recursive_combine.hpp"
e(R, """  RecursiveCombine_<parametric_dimension - 1uL>(factors, result,
                                                static_cast<ValueType>(1));
""", """  result.push_back(static_cast<ValueType>(1));
  for (std::size_t i_dim{parametric_dimension}; i_dim-- > 0;) {
    std::vector<ValueType> next{};
    next.reserve(result.size() * factors[i_dim].size());
    for (const auto& outer : result) {
      for (const auto& factor : factors[i_dim]) {
        next.push_back(factor * outer);
      }
    }
    result = std::move(next);
  }
""")
B = "src/utils/algorithms/bernstein_polynomial.hpp"
e(B, """    std::vector<ScalarType> evaluations;

    // Preallocate space to vectors
    evaluations.reserve(degree + 1);

    // Loop over parametric dimensions to precalculate basisfunctions
    ScalarType cfactor = static_cast<ScalarType>(1.);
    const ScalarType inv_value = cfactor - value;

    // Loop over dimensionwise ctps
    for (std::size_t i_basis{0}; i_basis < degree + 1; i_basis++) {
      evaluations.push_back(
          static_cast<ScalarType>(
              utils::FastBinomialCoefficient::choose(degree, i_basis)) *
          cfactor);
      cfactor *= value;
    }
    // Backwards assignment
    cfactor = static_cast<ScalarType>(1.);
    for (std::size_t i_basis{0}; i_basis < degree + 1; i_basis++) {
      evaluations[degree - i_basis] *= cfactor;
      cfactor *= inv_value;
    }
    return evaluations;""", """    std::vector<ScalarType> evaluations(degree + 1,
                                        static_cast<ScalarType>(0.));
    const ScalarType inv_value = static_cast<ScalarType>(1.) - value;

    // Triangular recursion over the degrees
    evaluations[0] = static_cast<ScalarType>(1.);
    for (std::size_t i_degree{1}; i_degree <= degree; i_degree++) {
      ScalarType saved = static_cast<ScalarType>(0.);
      for (std::size_t i_basis{0}; i_basis < i_degree; i_basis++) {
        const ScalarType current = evaluations[i_basis];
        evaluations[i_basis] = saved + inv_value * current;
        saved = value * current;
      }
      evaluations[i_degree] = saved;
    }
    return evaluations;""")
e(B, """          const ScalarType eval_v =
              utils::FastBinomialCoefficient::choose(deriv, k) *
              basis[i_basis - k];
          evaluations[i_basis] += ((k + deriv) & 1) ? -eval_v : eval_v;
        }
        evaluations[i_basis] *= aux_factor;""", """          const ScalarType eval_v =
              static_cast<ScalarType>(
                  utils::FastBinomialCoefficient::choose(deriv, k)) *
              basis[i_basis - k];
          if ((k + deriv) % 2 == 0) {
            evaluations[i_basis] += eval_v * aux_factor;
          } else {
            evaluations[i_basis] -= eval_v * aux_factor;
          }
        }""")
T = "src/utils/binomialcoefficientlookuptablecreator.hpp"
e(T, """        if (i == j || j == 0) {
          ret_val[offset + j] = static_cast<Scalar>(1);
        } else {
          ret_val[offset + j] =
              ret_val[offset - i + j - 1] + ret_val[offset - i + j];
        }""", """        ret_val[offset + j] =
            (i == j || j == 0)
                ? static_cast<Scalar>(1)
                : static_cast<Scalar>(ret_val[offset - i + j - 1] +
                                      ret_val[offset - i + j]);""")
b = "src/utils/base64.hpp"
e(b, """      std::array<ByteRepresentation, 3> buffer{};
      buffer[0] = buffer_index < minimum_n_bytes_required
                      ? vector_as_bytes[buffer_index + 0]
                      : 0;
      buffer[1] = buffer_index + 1 < minimum_n_bytes_required
                      ? vector_as_bytes[buffer_index + 1]
                      : 0;
      buffer[2] = buffer_index + 2 < minimum_n_bytes_required
                      ? vector_as_bytes[buffer_index + 2]
                      : 0;

      encoded_string[i_group * 4 + 0] =
          char_encode_table[((buffer[0] & 0xfc) >> 2)];
      encoded_string[i_group * 4 + 1] =
          char_encode_table[((buffer[0] & 0x03) << 4) +
                            ((buffer[1] & 0xf0) >> 4)];
      encoded_string[i_group * 4 + 2] =
          char_encode_table[((buffer[1] & 0x0f) << 2) +
                            ((buffer[2] & 0xc0) >> 6)];
      encoded_string[i_group * 4 + 3] =
          char_encode_table[((buffer[2] & 0x3f) << 0)];
    }
""", """      unsigned triple{};
      for (std::size_t i_byte{}; i_byte < 3; i_byte++) {
        triple <<= 8;
        if (buffer_index + i_byte < minimum_n_bytes_required) {
          triple |= vector_as_bytes[buffer_index + i_byte];
        }
      }
      for (std::size_t i_char{}; i_char < 4; i_char++) {
        encoded_string[i_group * 4 + i_char] =
            char_encode_table[(triple >> (18 - 6 * i_char)) & 0x3f];
      }
    }
""")
e(b, """    for (size_t i = 0; i < additional_padding_bytes; ++i) {
      encoded_string[number_of_groups * 4 - i - 1] = '=';
    }
""", """    encoded_string.resize(encoded_string.size() - additional_padding_bytes);
    encoded_string.append(additional_padding_bytes, '=');
""")
e(b, """      for (std::size_t i_dim{}; i_dim < dimension; i_dim++) {
        ctps_converted[i_point * dimension + i_dim] =
            data_vector[i_point][i_dim];
      }""", """      std::copy(data_vector[i_point].begin(), data_vector[i_point].end(),
                ctps_converted.begin() + i_point * dimension);""")
e(b, "#include <array>", "#include <algorithm>\n#include <array>")
A = "src/utils/computational_differentiation/algo_diff_type.inc"
e(A, """  v_ += b.v_;
  for (IndexingType_ i{}; i < GetNumberOfDerivatives(); i++) {
    d_[i] += b.d_[i];
  }""", """  std::transform(d_.begin(), d_.end(), b.d_.begin(), d_.begin(), std::plus<Scalar>{});
  v_ = v_ + b.v_;""")
e(A, """  v_ *= b;
  for (IndexingType_ i{}; i < GetNumberOfDerivatives(); i++) {
    d_[i] *= b;
  }""", """  const Scalar factor{b};
  for (auto& derivative : d_) derivative *= factor;
  v_ *= factor;""")
e(A, """  const Scalar_ inverse_b_squared = 1.0 / (b.v_ * b.v_);
  for (IndexingType_ i{}; i < GetNumberOfDerivatives(); i++) {
    // f'(x) = (u'*v -  u*v') / v^2
    d_[i] = (b.v_ * d_[i] - b.d_[i] * v_) * inverse_b_squared;
  }
  v_ /= b.v_;""", """  const Scalar_ divisor = b.v_;
  const Scalar_ quotient = v_ / divisor;
  for (IndexingType_ i{}; i < GetNumberOfDerivatives(); i++) {
    d_[i] = (d_[i] - quotient * b.d_[i]) / divisor;
  }
  v_ = quotient;""")
e(A, """  AlgoDiffType<Scalar, numberOfDerivatives> result_value{b};
  Scalar deriv = -a / (b.v_ * b.v_);
  result_value.v_ *= -deriv;
  for (std::size_t i{}; i < result_value.GetNumberOfDerivatives(); i++) {
    result_value.d_[i] *= deriv;
  }

  return result_value;""", """  AlgoDiffType<Scalar, numberOfDerivatives> result_value{b};
  const Scalar quotient = a / b.v_;
  result_value.v_ = quotient;
  for (std::size_t i{}; i < result_value.GetNumberOfDerivatives(); i++) {
    result_value.d_[i] *= -quotient / b.v_;
  }

  return result_value;""")
H = "src/utils/computational_differentiation/algo_diff_type.hpp"
e(H, """    std::fill(d_.begin(), d_.end(), Scalar_{});
    d_[component] = 1.0;""", """    for (std::size_t i{}; i < d_.size(); i++) {
      d_[i] = Scalar_{};
      if (i == component) d_[i] = 1.0;
    }""")
e(H, "constexpr bool operator<(const ADT_ &b) const { return v_ < b; }", "constexpr bool operator<(const ADT_ &b) const { return b.v_ > v_; }")
e(H, "constexpr bool operator<=(const ADT_ &b) const { return v_ <= b; }", "constexpr bool operator<=(const ADT_ &b) const { return !(v_ > b.v_); }")
e(H, "constexpr bool operator!=(const ADT_ &b) const { return v_ != b; }", "constexpr bool operator!=(const ADT_ &b) const { return !((*this) == b); }")
e(H, "constexpr bool operator>=(const ADT_ &b) const { return v_ >= b.v_; }", "constexpr bool operator>=(const ADT_ &b) const {\n    if (v_ < b.v_) return false;\n    return true;\n  }")
e(H, "constexpr unsigned int GetNumberOfDerivatives() const { return d_.size(); }", "constexpr unsigned int GetNumberOfDerivatives() const {\n    return static_cast<unsigned int>(std::distance(d_.begin(), d_.end()));\n  }")
e(H, "#include <array>", "#include <algorithm>\n#include <array>\n#include <functional>\n#include <iterator>")
