#include "randomiser.hpp"
#include "values.hpp"
#include <memory>
#include <vector>
using namespace Helper;
using probe::any;
template class Helper::RandomiserInterface<int>;
template struct Helper::UniformIntRandomiser<short>;
template struct Helper::UniformIntRandomiser<int>;
template struct Helper::UniformIntRandomiser<long>;
template struct Helper::UniformIntRandomiser<unsigned>;
template struct Helper::UniformIntRandomiser<std::size_t>;
template struct Helper::UniformRealRandomiser<float>;
template struct Helper::UniformRealRandomiser<double>;
template struct Helper::UniformRealRandomiser<long double>;
void uses() {
    UniformIntRandomiser<int> a(0,10); int x=a.get(); UniformRealRandomiser<double> b(0,1); double y=b.get(); (void)x; (void)y; UniformIntRandomiser<int> c(a); c=a; RandomiserInterface<int>& i=a; i.get(); std::unique_ptr<RandomiserInterface<double>> p(new UniformRealRandomiser<double>(0.0,1.0)); p->get(); std::vector<UniformIntRandomiser<int>> v; v.push_back(a); RandomGenerator g; g.engine()(); std::mt19937& e=g.engine(); e();
}
