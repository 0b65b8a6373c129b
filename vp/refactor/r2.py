# splines: helpers extracted, standard algorithms, statements reordered
E = []
def e(f, old, new, cnt=1): E.append((f, old, new, cnt))
h = "src/bezier_spline.hpp"; i = "src/bezier_spline.inc"; rh = "src/rational_bezier_spline.hpp"; ri = "src/rational_bezier_spline.inc"
e(h, """      : degrees{deg} {
    number_of_control_points = 1u;
    for (unsigned int i{}; i < parametric_dimension; i++)
      number_of_control_points *= degrees[i] + 1;
    control_points.resize(number_of_control_points);
    UpdateIndexOffsets_();
  };""", """      : BezierSpline(deg, std::vector<PhysicalPointType>(std::accumulate(
                              deg.begin(), deg.end(), std::size_t{1},
                              [](std::size_t n, std::size_t d) {
                                return n * (d + 1);
                              }))){};""")
e(h, """      : degrees{deg}, control_points{points} {
    number_of_control_points = 1u;
    for (unsigned int i{}; i < parametric_dimension; i++)
      number_of_control_points *= degrees[i] + 1;

    UpdateIndexOffsets_();
    assert(number_of_control_points == points.size());
  };""", """      : degrees{deg}, control_points(points.begin(), points.end()) {
    UpdateIndexOffsets_();
    number_of_control_points = index_offsets.back() * (degrees.back() + 1);
    assert(number_of_control_points == points.size());
  };""")
e(h, """    degrees = new_degrees;
    number_of_control_points = 1u;
    for (unsigned int i{}; i < parametric_dimension; i++)
      number_of_control_points *= degrees[i] + 1;
    control_points.resize(number_of_control_points);
    UpdateIndexOffsets_();
  }""", """    if (new_degrees == degrees &&
        control_points.size() == number_of_control_points &&
        number_of_control_points > 0) {
      return;
    }
    std::size_t n_points{1};
    for (const auto degree : new_degrees) n_points *= degree + 1;
    control_points.resize(n_points);
    number_of_control_points = n_points;
    degrees = new_degrees;
    UpdateIndexOffsets_();
  }""")
e(i, """  index_offsets[0] = 1;
  for (unsigned int i{1}; i < parametric_dimension; i++)
    index_offsets[i] = index_offsets[i - 1] * (degrees[i - 1] + 1);""", """  IndexingType offset{1};
  for (unsigned int i{0}; i < parametric_dimension; i++) {
    index_offsets[i] = offset;
    offset *= degrees[i] + 1;
  }""")
e(i, """    indexList[i] = (local_index / index_offsets[i]) % (degrees[i] + 1);
  }""", """    indexList[i] = (local_index / index_offsets[i]) % (degrees[i] + 1);
  }
  // Remainders of the quotients, equivalent to a successive division
  IndexingType remaining{local_index};
  for (unsigned int i{0}; i < parametric_dimension; i++) {
    indexList[i] = remaining % (degrees[i] + 1);
    remaining /= degrees[i] + 1;
  }""")
e(i, """  IndexingType c_i{local_index[0]};
  for (unsigned int i{1}; i < parametric_dimension; i++) {
    c_i += index_offsets[i] * local_index[i];
  }
  return c_i;""", """  return std::inner_product(index_offsets.begin(), index_offsets.end(),
                            local_index.begin(), IndexingType{});""")
e(i, """    ScalarType_ factor = par_coords[par_dim];
    ScalarType_ inv_factor = 1. - par_coords[par_dim];
""", """    const ScalarType_& factor = par_coords[par_dim];
    const ScalarType_ inv_factor = -par_coords[par_dim] + 1.;
""")
e(i, """          ctps_copy[j * step_width + offset] =
              ctps_copy[j * step_width + offset] * inv_factor +
              ctps_copy[(j + 1) * step_width + offset] * factor;""", """          auto& current = ctps_copy[j * step_width + offset];
          const auto& next = ctps_copy[(j + 1) * step_width + offset];
          current = next * factor + current * inv_factor;""")
e(i, """  PhysicalPointType_ evaluation_point{};

  for (IndexingType i_basis_function{0}; i_basis_function < factors.size();
       i_basis_function++) {
    evaluation_point +=
        factors[i_basis_function] * GetControlPoints()[i_basis_function];
  }

  return evaluation_point;""", """  return std::inner_product(
      factors.begin(), factors.end(), control_points.begin(),
      PhysicalPointType_{},
      [](const auto& a, const auto& b) { return a + b; },
      [](const auto& factor, const auto& point) { return factor * point; });""", 2)
e(i, """  if (rhs.GetDegrees() == degrees) {
    return rhs.control_points == control_points;
  } else {
    return false;
  }""", """  return std::equal(degrees.begin(), degrees.end(), rhs.degrees.begin()) &&
         (control_points.size() == rhs.control_points.size()) &&
         std::equal(control_points.begin(), control_points.end(),
                    rhs.control_points.begin());""")
e(i, """  PhysicalPointType maximum{control_points[0]};
  for (IndexingType i{1}; i < GetNumberOfControlPoints(); i++) {
    if constexpr (std::is_arithmetic_v<PhysicalPointType>) {
      maximum = std::max(maximum, control_points[i]);
    } else {""", """  if constexpr (std::is_arithmetic_v<PhysicalPointType>) {
    return *std::max_element(control_points.begin(), control_points.end());
  }
  PhysicalPointType maximum{control_points[0]};
  for (IndexingType i{1}; i < GetNumberOfControlPoints(); i++) {
    if constexpr (!std::is_arithmetic_v<PhysicalPointType>) {""")
e(i, """        minimum[i_dim] = std::min(minimum[i_dim], control_points[i][i_dim]);""", """        if (control_points[i][i_dim] < minimum[i_dim]) {
          minimum[i_dim] = control_points[i][i_dim];
        }""")
e(i, """  const auto maximum_corner = MaximumCorner();
  const auto minimum_corner = MinimumCorner();
  if constexpr (std::is_arithmetic_v<PhysicalPointType>) {
    if ((maximum_corner > static_cast<ScalarType>(1)) ||
        (minimum_corner < static_cast<ScalarType>(0))) {
      return false;
    }
  } else {
    for (IndexingType i_dim{}; i_dim < PhysicalPointType::kSpatialDimension;
         i_dim++) {
      if ((maximum_corner[i_dim] > static_cast<ScalarType>(1)) ||
          (minimum_corner[i_dim] < static_cast<ScalarType>(0))) {
        return false;
      }
    }
  }
  return true;""", """  const auto in_unit_interval = [](const auto& x) {
    return !(x < static_cast<ScalarType>(0)) &&
           !(x > static_cast<ScalarType>(1));
  };
  return std::all_of(
      control_points.begin(), control_points.end(), [&](const auto& point) {
        if constexpr (std::is_arithmetic_v<PhysicalPointType>) {
          return in_unit_interval(point);
        } else {
          return std::all_of(point.begin(), point.end(), in_unit_interval);
        }
      });""")
e(i, """    const auto recursive_power =
        RaisePower(static_cast<IndexingType>(power / 2));
    if ((power % 2) == 0) {
      return recursive_power * recursive_power;
    } else {
      return recursive_power * recursive_power * (*this);
    }""", """    auto result = (*this);
    for (IndexingType i{1}; i < power; i++) {
      result = result * (*this);
    }
    return result;""")
e(i, """  if (!(splitting_plane > 0. && splitting_plane < 1.)) {
    utils::Logger::TerminatingError(""", """  const bool inside = splitting_plane > 0. && splitting_plane < 1.;
  if (!inside) {
    utils::Logger::TerminatingError(""")
e(i, """  if (!std::is_sorted(splitting_planes.begin(), splitting_planes.end())) {
    utils::Logger::TerminatingError("Split Plane values must be increasing");
  }
""", """  for (std::size_t i_plane{1}; i_plane < splitting_planes.size(); i_plane++) {
    if (splitting_planes[i_plane] < splitting_planes[i_plane - 1]) {
      utils::Logger::TerminatingError("Split Plane values must be increasing");
    }
  }
""")
e(i, """        const ScalarType_ factor = static_cast<ScalarType_>(i) * inverse_factor;

        control_points[global_index] =
            control_points[first_index_in_group + index_in_group +
                           index_offsets[par_dim] * i] *
                (1 - factor) +
            control_points[first_index_in_group + index_in_group +
                           index_offsets[par_dim] * (i - 1)] *
                factor;
        global_index--;""", """        const ScalarType_ factor = static_cast<ScalarType_>(i) * inverse_factor;
        const IndexingType right = first_index_in_group + index_in_group +
                                   index_offsets[par_dim] * i;
        const IndexingType left = right - index_offsets[par_dim];
        const PhysicalPointType difference =
            control_points[left] - control_points[right];
        control_points[global_index] =
            control_points[right] + difference * factor;
        global_index--;""")
e(i, """  for (IndexingType i{}; i < GetNumberOfControlPoints(); i++) {
    inverted_spline.control_points[i] = -control_points[i];
  }""", """  for (auto& point : inverted_spline.control_points) point = -point;""")
e(i, """  const PhysicalPointType shift{point_shift};
  for (std::size_t i{}; i < GetNumberOfControlPoints(); i++) {
    control_points[i] -= shift;
  }""", """  const PhysicalPointType shift{-point_shift};
  std::for_each(control_points.begin(), control_points.end(),
                [&shift](PhysicalPointType& point) { point += shift; });""")
e(rh, """            std::vector<ScalarType>(
                // Size of control-point vector
                weighted_spline_.GetNumberOfControlPoints(),
                // Value
                static_cast<ScalarType>(1.))};""", """            std::vector<ScalarType>(bezier_spline.GetNumberOfControlPoints(),
                                    ScalarType{1})};""")
e(rh, """    for (std::size_t i_point{0};
         i_point < weighted_spline_.control_points.size(); i_point++) {
      weighted_spline_.control_points[i_point] =
          control_point_vector[i_point] * weights[i_point];
    }""", """    std::transform(control_point_vector.begin(), control_point_vector.end(),
                   weights.begin(), weighted_spline_.control_points.begin(),
                   [](const PhysicalPointType_& point,
                      const ScalarType& weight) { return weight * point; });""")
e(rh, """    weight_function_.UpdateDegrees(new_degrees);
    weighted_spline_.UpdateDegrees(new_degrees);""", """    weighted_spline_.UpdateDegrees(new_degrees);
    weight_function_.UpdateDegrees(new_degrees);""")
