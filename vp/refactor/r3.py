# rational splines, products, decoding and logger: helpers extracted, conditions inverted, loops rewritten
E = []
def e(f, old, new, cnt=1): E.append((f, old, new, cnt))
h = "src/bezier_spline.hpp"; i = "src/bezier_spline.inc"; rh = "src/rational_bezier_spline.hpp"; ri = "src/rational_bezier_spline.inc"
b = "src/utils/base64.hpp"; L = "src/utils/logger.hpp"; F = "src/utils/fastbinomialcoefficient.hpp"; A = "src/utils/computational_differentiation/algo_diff_type.inc"
S = "src/utils/algorithms/sort.hpp"; I = "src/utils/algorithms/int_power.hpp"; B = "src/utils/algorithms/bernstein_polynomial.hpp"
e(ri, """  // Initialize values
  PhysicalPointType evaluation_point{};

  for (IndexingType i_basis_function{0}; i_basis_function < factors.size();
       i_basis_function++) {
    evaluation_point += factors[i_basis_function] *
                        GetWeightedControlPoints()[i_basis_function];
  }

  // Divide through weight function value
  return evaluation_point / weight_function_.ForwardEvaluate(par_coords);""", """  PhysicalPointType numerator{};
  ScalarType denominator{};
  auto weight = weight_function_.control_points.cbegin();
  auto point = weighted_spline_.control_points.cbegin();
  for (const auto &factor : factors) {
    numerator += *(point++) * factor;
    denominator += factor * *(weight++);
  }
  return numerator / denominator;""")
e(ri, """  if (weight_function_ == rhs.weight_function_) {
    weighted_spline_ += rhs.weighted_spline_;
    return (*this);
  } else {
    weighted_spline_ = weighted_spline_ * rhs.weight_function_;
    weighted_spline_ += weight_function_ * rhs.weighted_spline_;
    weight_function_ = weight_function_ * rhs.weight_function_;
    // Check sanity
    assert(CheckSplineCompatibility());
    return (*this);
  }""", """  (*this) = (*this) + rhs;
  return (*this);""")
e(ri, """  if (weight_function_ == rhs.weight_function_) {
    return RationalBezierSpline{weighted_spline_ - rhs.weighted_spline_,
                                weight_function_};
  } else {
    return RationalBezierSpline{weighted_spline_ * rhs.weight_function_ -
                                    weight_function_ * rhs.weighted_spline_,
                                weight_function_ * rhs.weight_function_};
  }""", """  return (*this) + (-rhs);""")
e(ri, """  weighted_spline_ *= scalar;
  // Check sanity""", """  for (auto &point : weighted_spline_.control_points) {
    point = point * ScalarType{scalar};
  }
  // Check sanity""", 1)
E.pop()  # (aliased scalar: not the same behaviour)
e(ri, """  for (IndexingType i_ctps{};
       i_ctps < weighted_spline_.GetNumberOfControlPoints(); i_ctps++) {
    weighted_spline_.control_points[i_ctps] -=
        shift * weight_function_.control_points[i_ctps];
  }
  return (*this);""", """  const auto &weights = GetWeights();
  auto &points = GetWeightedControlPoints();
  for (IndexingType i_ctps{points.size()}; i_ctps > 0; i_ctps--) {
    points[i_ctps - 1] -= weights[i_ctps - 1] * shift;
  }
  return (*this);""")
e(ri, """  const auto weighted_splines =
      weighted_spline_.SplitAtPosition(splitting_planes, splitting_dimension);
  const auto weight_functions =
      weight_function_.SplitAtPosition(splitting_planes, splitting_dimension);
  return std::vector<RationalBezierSpline>{
      RationalBezierSpline{weighted_splines[0], weight_functions[0]},
      RationalBezierSpline{weighted_splines[1], weight_functions[1]}};""", """  const auto weight_functions =
      weight_function_.SplitAtPosition(splitting_planes, splitting_dimension);
  const auto weighted_splines =
      weighted_spline_.SplitAtPosition(splitting_planes, splitting_dimension);
  std::vector<RationalBezierSpline> parts;
  for (std::size_t i_part{}; i_part < weighted_splines.size(); i_part++) {
    parts.emplace_back(weighted_splines[i_part], weight_functions[i_part]);
  }
  return parts;""")
e(ri, """  const auto maximum_corner = MaximumCorner();
  const auto minimum_corner = MinimumCorner();
  if constexpr (std::is_arithmetic_v<PhysicalPointType>) {
    if ((maximum_corner > static_cast<ScalarType>(1)) ||
        (minimum_corner < static_cast<ScalarType>(0))) {
      return false;
    }
  } else {
    for (IndexingType i_dim{}; i_dim < PhysicalPointType::kSpatialDimension;
         i_dim++) {
      if ((maximum_corner[i_dim] > static_cast<ScalarType>(1)) ||
          (minimum_corner[i_dim] < static_cast<ScalarType>(0))) {
        return false;
      }
    }
  }
  return true;""", """  for (IndexingType i{}; i < GetNumberOfControlPoints(); i++) {
    const PhysicalPointType point =
        GetWeightedControlPoints()[i] / GetWeights()[i];
    if constexpr (std::is_arithmetic_v<PhysicalPointType>) {
      if (point > static_cast<ScalarType>(1)) return false;
      if (point < static_cast<ScalarType>(0)) return false;
    } else {
      for (const auto &coordinate : point) {
        if (coordinate > static_cast<ScalarType>(1) ||
            coordinate < static_cast<ScalarType>(0)) {
          return false;
        }
      }
    }
  }
  return true;""")
e(i, """      (*this).ControlPoint(ctpsIndex) += P_spline.ControlPoint(ind_lhs) *
                                         Q_spline.ControlPoint(ind_rhs) *
                                         factor * lFactor;""", """      const ScalarType coefficient = lFactor * factor;
      control_points[GlobalToLocalIndex(ctpsIndex)] +=
          coefficient *
          (P_spline.ControlPoint(ind_lhs) * Q_spline.ControlPoint(ind_rhs));""")
e(i, """    return_value_.reserve(GetNumberOfControlPoints());
      return return_value_;""", """    return return_value_;""", 0)
E.pop()
e(i, """  // Precomputed required values - Numerator
  const auto numerator_splines = ComposeNumeratorSensitivity(inner_function);
  // Precomputed required values - Denominator
  const auto denominator = ComposeDenominatorSpline(inner_function);
""", """  const auto denominator = ComposeDenominatorSpline(inner_function);
  const auto numerator_splines = ComposeNumeratorSensitivity(inner_function);
""")
e(i, """    // 3. Multiply coefficients
    for (std::size_t i_ctps_in_par_dim{1};
         i_ctps_in_par_dim < degrees[i_outer_parametric_dimension];
         i_ctps_in_par_dim++) {
      bernstein_spline[degrees[i_outer_parametric_dimension] -
                       i_ctps_in_par_dim] *=
          utils::FastBinomialCoefficient::choose(
              degrees[i_outer_parametric_dimension], i_ctps_in_par_dim);
    }""", """    // 3. Multiply coefficients
    for (std::size_t i_ctps{}; i_ctps < bernstein_spline.size(); i_ctps++) {
      bernstein_spline[i_ctps] *= utils::FastBinomialCoefficient::choose(
          bernstein_spline.size() - 1, i_ctps);
    }""")
e(i, """      for (IndexingType i{1}; i < k; i++) {
        factor *= p - i;
      }
      return factor;""", """      for (IndexingType i{p - 1}; i > p - k; i--) {
        factor = factor * static_cast<ScalarType>(i);
      }
      return factor;""")
e(i, """        const ScalarType local_coefficient =
            (j_point_offset % 2 == 0 ? 1.0 : -1.0) *
            utils::FastBinomialCoefficient::choose(orders[i_para_dim],
                                                   j_point_offset);
        new_control_points[i_point_index] +=
            local_coefficient *
            new_control_points[GlobalToLocalIndex(multi_index)];""", """        const auto &other = new_control_points[GlobalToLocalIndex(multi_index)];
        const auto coefficient =
            static_cast<double>(utils::FastBinomialCoefficient::choose(
                orders[i_para_dim], j_point_offset));
        if (j_point_offset & 1) {
          new_control_points[i_point_index] -= coefficient * other;
        } else {
          new_control_points[i_point_index] += coefficient * other;
        }""")
e(i, """  unsigned int c_i{0}, i{};
  ((c_i += index_offsets[i++] * index), ...);
  return control_points[c_i];""", """  return ControlPoint(std::array<IndexingType, parametric_dimension>{
      static_cast<IndexingType>(index)...});""", 2)
e(b, """      std::array<unsigned, 4> buffer{};
      for (unsigned i{}; i < 4; i++) {
        buffer[i] = base64string[buffer_index + i] != '='
                        ? char_decode_table[static_cast<ByteRepresentation>(
                              base64string[buffer_index + i])]
                        : 255;
      }
""", """      std::array<unsigned, 4> buffer{};
      for (unsigned i{}; i < 4; i++) {
        const char current = base64string[buffer_index + i];
        if (current == '=') {
          buffer[i] = 255;
          continue;
        }
        buffer[i] = char_decode_table[static_cast<ByteRepresentation>(current)];
      }
""")
e(b, """      if (buffer[1] != 255 && i_group * 3 < number_of_output_bytes) {
        vector_as_bytes[i_group * 3] =
            ((buffer[0] & 0x3f) << 2) + ((buffer[1] & 0x30) >> 4);
      }
      if (buffer[2] != 255 && i_group * 3 + 1 < number_of_output_bytes) {
        vector_as_bytes[i_group * 3 + 1] =
            ((buffer[1] & 0x0f) << 4) + ((buffer[2] & 0x3c) >> 2);
      }
      if (buffer[3] != 255 && i_group * 3 + 2 < number_of_output_bytes) {
        vector_as_bytes[i_group * 3 + 2] =
            ((buffer[2] & 0x03) << 6) + ((buffer[3] & 0x3f) >> 0);
      }""", """      for (std::size_t i{}; i < 3; i++) {
        const std::size_t position = i_group * 3 + i;
        if (position >= number_of_output_bytes || buffer[i + 1] == 255) {
          continue;
        }
        const unsigned bits =
            ((buffer[i] & 0x3f) << 6) | (buffer[i + 1] & 0x3f);
        vector_as_bytes[position] =
            static_cast<ByteRepresentation>((bits >> (4 - 2 * i)) & 0xff);
      }""")
e(b, """    for (std::size_t i{1}; i <= 2 && i <= base64string.size() &&
                           base64string[base64string.size() - i] == '=';
         i++) {
      number_of_bytes--;
    }""", """    if (!base64string.empty() && base64string.back() == '=') {
      number_of_bytes--;
      if (*(base64string.rbegin() + 1) == '=') number_of_bytes--;
    }""")
e(b, """    std::array<unsigned, 256> et_reversed{};
    for (unsigned i{}; i < char_encode_table.size(); i++) {
      et_reversed[static_cast<unsigned>(char_encode_table[i])] = i;
    }""", """    std::array<unsigned, 256> et_reversed{};
    unsigned index{};
    for (const char c : char_encode_table) {
      et_reversed[static_cast<unsigned char>(c)] = index++;
    }""")
e(F, "    return look_up[n * (n + 1) / 2 + i];", "    const unsigned int row_offset = (n * n + n) >> 1;\n    return look_up[row_offset + i];")
e(A, """  return base.v_ > 0.0 ? base : (-base);""", """  if (base.v_ > 0.0) {
    return base;
  }
  return -base;""")
e(S, """  std::vector<size_t> idx(v.size());
  std::iota(idx.begin(), idx.end(), 0);
  std::stable_sort(idx.begin(), idx.end(),
                   [&v](size_t i1, size_t i2) { return v[i1] < v[i2]; });""", """  std::vector<size_t> idx;
  idx.reserve(v.size());
  // Insertion sort, equal values keep their order
  for (size_t i{}; i < v.size(); i++) {
    auto position = std::upper_bound(
        idx.begin(), idx.end(), i,
        [&v](size_t i1, size_t i2) { return v[i1] < v[i2]; });
    idx.insert(position, i);
  }""")
e(I, """  if (power == 0) return 1;
  if (power == 1) return base;

  const IntegralType half_power = power / 2;
  const IntegralType tmp = IntPower(base, half_power);
  if ((power % 2) == 0) {
    return tmp * tmp;
  } else {
    return base * tmp * tmp;
  }""", """  IntegralType result{1};
  for (IntegralType i{0}; i < power; i++) {
    result *= base;
  }
  return result;""")
e(B, """        ScalarType value{1};
        for (std::size_t i_deg{degree}; i_deg > (degree - deriv); i_deg--) {
          value *= i_deg;
        }
        return value;""", """        std::size_t product{1};
        for (std::size_t i{}; i < deriv; i++) {
          product *= degree - i;
        }
        return static_cast<ScalarType>(static_cast<double>(product));""")
E.pop()  # (integer overflow for large orders: not the same behaviour)
# logger: one routine for all messages
e(L, """ private:
  /**
   * @brief Get the Logger object""", """ private:
  /// Check if any of the bits of a level is set
  bool IsEnabled_(const OutputLevel level) const {
    return (outputlevel_ & static_cast<unsigned>(level)) != 0u;
  }

  /// Writes a single record
  void Write_(std::ostream& stream, const unsigned int padding,
              const std::string& label, const std::string& text) {
    stream << "[" << std::setw(padding) << label << "]" << GetTimeStamp_()
           << " : " << text << "\\n";
  }

  /**
   * @brief Get the Logger object""")
import re
for lab, col, lev in (("warning", "yellow", "warnings"), ("error", "red", "errors"), ("user info", "blue", "userinfo")):
    txt = {"warning": "warning_text", "error": "error_text", "user info": "info_text"}[lab]
    e(L, {"warning": """    if (static_cast<unsigned>(OutputLevel::warnings) & outputlevel_) {
      std::cout << "[" << std::setw(padding_first_col_console)
                << ColorText("warning", Color::yellow) << "]" << GetTimeStamp_()
                << " : " << ColorText(warning_text, Color::yellow) << "\\n";
    }
    if (static_cast<unsigned>(OutputLevel::warning_file) & outputlevel_) {
      warning_file << "[" << std::setw(padding_first_col_files) << "warning"
                   << "]" << GetTimeStamp_() << " : " << warning_text << "\\n";
    }
""", "error": """    if (static_cast<unsigned>(OutputLevel::errors) & outputlevel_) {
      std::cout << "[" << std::setw(padding_first_col_console)
                << ColorText("error", Color::red) << "]" << GetTimeStamp_()
                << " : " << ColorText(error_text, Color::red) << "\\n";
    }
    if (static_cast<unsigned>(OutputLevel::error_file) & outputlevel_) {
      error_file << "[" << std::setw(padding_first_col_files) << "error"
                 << "]" << GetTimeStamp_() << " : " << error_text << "\\n";
    }
""", "user info": """    if (static_cast<unsigned>(OutputLevel::userinfo) & outputlevel_) {
      std::cout << "[" << std::setw(padding_first_col_console)
                << ColorText("user info", Color::blue) << "]" << GetTimeStamp_()
                << " : " << ColorText(info_text, Color::blue) << "\\n";
    }
    if (static_cast<unsigned>(OutputLevel::log_file) & outputlevel_) {
      log_file << "[" << std::setw(padding_first_col_files) << "user info"
               << "]" << GetTimeStamp_() << " : " << info_text << "\\n";
    }
"""}[lab], f"""    if (IsEnabled_(OutputLevel::{lev})) {{
      Write_(std::cout, padding_first_col_console,
             ColorText("{lab}", Color::{col}), ColorText({txt}, Color::{col}));
    }}
    if (IsEnabled_(OutputLevel::{dict(warning='warning_file', error='error_file')[lab] if lab != 'user info' else 'log_file'})) {{
      Write_({dict(warning='warning_file', error='error_file')[lab] if lab != 'user info' else 'log_file'}, padding_first_col_files, "{lab}", {txt});
    }}
""")
e(L, """    if (static_cast<unsigned>(OutputLevel::log_file) & outputlevel_) {
      if (!log_file.is_open()) {
        log_file.open("log_file.log");
      }
    }
    if (static_cast<unsigned>(OutputLevel::warning_file) & outputlevel_) {
      if (!warning_file.is_open()) {
        warning_file.open("warning_file.log");
      }
    }
    if (static_cast<unsigned>(OutputLevel::error_file) & outputlevel_) {
      if (!error_file.is_open()) {
        error_file.open("error_file.log");
      }
    }""", """    const auto open_if_enabled = [this](std::ofstream& file,
                                        const OutputLevel level,
                                        const char* name) {
      if (IsEnabled_(level) && !file.is_open()) file.open(name);
    };
    open_if_enabled(warning_file, OutputLevel::warning_file,
                    "warning_file.log");
    open_if_enabled(error_file, OutputLevel::error_file, "error_file.log");
    open_if_enabled(log_file, OutputLevel::log_file, "log_file.log");""")
e(L, """    outputlevel_ = 0;
    for (auto i_option = output_options.begin();
         i_option != output_options.end(); ++i_option) {
      outputlevel_ |= static_cast<unsigned>(*i_option);
    }
    init();""", """    unsigned int level{0};
    for (const OutputLevel option : output_options) {
      level = level | static_cast<unsigned>(option);
    }
    SetOutputLevel_(level);""")
e(L, """      std::time_t result = std::time(nullptr);
      std::string time_stamp = (std::asctime(std::localtime(&result)));
      time_stamp.pop_back();
      return "[" + time_stamp + "]";""", """      const std::time_t result = std::time(nullptr);
      const std::string time_stamp{std::asctime(std::localtime(&result))};
      return "[" + time_stamp.substr(0, time_stamp.size() - 1) + "]";""")
