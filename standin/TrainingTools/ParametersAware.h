// Stand-in for the TrainingTools library (github.com/andreacasalino/TrainingTools), which can't be fetched
// here: the part of its interface that the repository uses, written from those uses.
#pragma once

#include <cstddef>
#include <vector>

namespace Eigen {
using Index = std::ptrdiff_t;
} // namespace Eigen

namespace train {
class Vect {
public:
  Vect() = default;
  explicit Vect(Eigen::Index size) : values(static_cast<std::size_t>(size), 0.0) {}

  Eigen::Index size() const { return static_cast<Eigen::Index>(values.size()); }
  Eigen::Index rows() const { return size(); }
  double &operator()(Eigen::Index k) { return values.at(static_cast<std::size_t>(k)); }
  double operator()(Eigen::Index k) const { return values.at(static_cast<std::size_t>(k)); }
  double &operator[](Eigen::Index k) { return (*this)(k); }
  double operator[](Eigen::Index k) const { return (*this)(k); }
  void resize(Eigen::Index size) { values.assign(static_cast<std::size_t>(size), 0.0); }

  Vect operator-() const { return *this * -1.0; }
  Vect operator*(double c) const {
    Vect res = *this;
    for (auto &v : res.values) {
      v *= c;
    }
    return res;
  }
  Vect &operator*=(double c) { return *this = *this * c; }
  friend Vect operator*(double c, const Vect &v) { return v * c; }

private:
  std::vector<double> values;
};

class ParametersAware {
public:
  virtual ~ParametersAware() = default;

  virtual Vect getParameters() const = 0;
  virtual void setParameters(const Vect &parameters) = 0;
  virtual Vect getGradient() const = 0;
};
} // namespace train
