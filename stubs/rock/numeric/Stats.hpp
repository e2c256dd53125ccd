#ifndef VC_STATS_HPP
#define VC_STATS_HPP
#include <Eigen/Core>
#include <vector>
namespace numeric {
    template<class T> struct Stats {
        std::vector<T> v; std::vector<double> w; double sw; T m; 
        Stats() : sw(0) { m.setZero(); }
        void update(T const& x, double weight = 1.0) { v.push_back(x); w.push_back(weight); sw += weight; m.setZero(); for (size_t i=0;i<v.size();++i) m += v[i]*w[i]; m /= sw; }
        T mean() const { return m; }
        Eigen::Matrix<double, T::RowsAtCompileTime, T::RowsAtCompileTime> var() const { Eigen::Matrix<double, T::RowsAtCompileTime, T::RowsAtCompileTime> c; c.setZero(); for (size_t i=0;i<v.size();++i) c += (v[i]-m)*(v[i]-m).transpose()*w[i]; return c / sw; }
        double sumWeights() const { return sw; }
        size_t n() const { return v.size(); }
    };
}
#endif
