// Each function is run by the interpreter of /verif/sa and by the compiled program; the results must agree.
#include <Eigen/Dense>
#include <algorithm>
#include <array>
#include <cmath>
#include <deque>
#include <functional>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <set>
#include <string>
#include <tuple>
#include <unordered_map>
#include <utility>
#include <vector>
using M3 = Eigen::Matrix<double, 3, 3>;
using V3 = Eigen::Matrix<double, 3, 1>;
using MX = Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic>;
using VX = Eigen::Matrix<double, Eigen::Dynamic, 1>;
using Q = Eigen::Quaternion<double>;
namespace T {
static MX mat(int r, int c, int seed) {
    MX m(r, c);
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = std::sin(1.0 + seed + 3.1 * i + 1.7 * j);
    return m;
}
static double h(const MX &m) {
    double s = 0;
    for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) s += m(i, j) * (1 + i * 0.3 + j * 0.7);
    return s;
}
double t_advance() { std::list<int> l{1, 2, 3, 4}; auto it = l.begin(); std::advance(it, 2); auto e = l.end(); std::advance(e, -1); return *it * 10 + *e; }
double t_next() { std::map<int, int> m{{1, 5}, {2, 7}, {3, 9}}; return std::next(m.begin())->second * 10 + std::prev(m.end())->first; }
double t_transform() { std::vector<double> v{1, 2, 3}; std::vector<double> o; std::transform(v.begin(), v.end(), std::back_inserter(o), [](double x) { return x * x; }); return o[0] + o[1] * 10 + o[2] * 100; }
double t_transform2() { std::vector<double> v{1, 2, 3}; std::transform(v.begin(), v.end(), v.begin(), [](double x) { return x + 1; }); return v[0] + v[1] * 10 + v[2] * 100; }
double t_copyif() { std::vector<int> v{1, 2, 3, 4, 5}; std::vector<int> o; std::copy_if(v.begin(), v.end(), std::back_inserter(o), [](int x) { return x % 2 == 1; }); return o.size() * 100 + o[0] * 10 + o[2]; }
double t_erase() { std::vector<int> v{1, 2, 3, 4, 5, 6}; v.erase(std::remove_if(v.begin(), v.end(), [](int x) { return x % 3 == 0; }), v.end()); double s = 0; for (int x : v) s = s * 10 + x; return s; }
double t_remove() { std::vector<int> v{1, 2, 3, 2, 5}; v.erase(std::remove(v.begin(), v.end(), 2), v.end()); double s = 0; for (int x : v) s = s * 10 + x; return s; }
double t_sort() { std::vector<double> v{3, 1, 2}; std::sort(v.begin(), v.end()); return v[0] + v[1] * 10 + v[2] * 100; }
double t_sort2() { std::vector<double> v{3, 1, 2}; std::sort(v.begin(), v.end(), [](double a, double b) { return a > b; }); return v[0] + v[1] * 10 + v[2] * 100; }
double t_minel() { std::vector<double> v{3, 1, 2}; auto it = std::min_element(v.begin(), v.end()); return *it + 10 * (it - v.begin()) + 100 * *std::max_element(v.begin(), v.end()); }
double t_minel2() { std::vector<std::pair<int, double>> v{{3, 0.5}, {1, 0.25}, {2, 0.75}}; auto it = std::min_element(v.begin(), v.end(), [](const auto &a, const auto &b) { return a.second < b.second; }); return it->first; }
double t_iota() { std::vector<int> v(4); std::iota(v.begin(), v.end(), 3); return v[0] + 10 * v[3]; }
double t_inner() { std::vector<double> a{1, 2, 3}, b{4, 5, 6}; return std::inner_product(a.begin(), a.end(), b.begin(), 0.5); }
double t_acc() { std::vector<double> a{1, 2, 3}; return std::accumulate(a.begin(), a.end(), 1.0, [](double s, double x) { return s * 2 + x; }); }
double t_gen() { std::vector<int> a(3); int k = 2; std::generate(a.begin(), a.end(), [&k]() { return k++; }); return a[0] + 10 * a[2]; }
double t_filln() { std::vector<int> a(3, 1); std::fill_n(a.begin(), 2, 7); return a[0] + 10 * a[2]; }
double t_unique() { std::vector<int> a{1, 1, 2, 2, 1}; a.erase(std::unique(a.begin(), a.end()), a.end()); return a.size(); }
double t_lower() { std::vector<int> a{1, 3, 5, 7}; return (std::lower_bound(a.begin(), a.end(), 4) - a.begin()) * 10 + (std::upper_bound(a.begin(), a.end(), 5) - a.begin()) + (std::binary_search(a.begin(), a.end(), 3) ? 100 : 0); }
double t_equal() { std::vector<int> a{1, 3}, b{1, 3}, c{1, 4}; return std::equal(a.begin(), a.end(), b.begin()) * 10 + std::equal(a.begin(), a.end(), c.begin()); }
double t_veceq() { std::vector<int> a{1, 3}, b{1, 3}, c{1, 4}; return (a == b) * 10 + (a != c); }
double t_exchange() { int a = 3; int b = std::exchange(a, 5); return a * 10 + b; }
double t_function() { std::function<double(double)> f = [](double x) { return x + 0.5; }; return f(2) + (f ? 1 : 0); }
double t_function2() { double k = 2; auto apply = [](const std::function<void(int)> &g) { g(1); g(2); }; apply([&k](int i) { k += i; }); return k; }
double t_optional() { std::optional<double> a; double r = a ? 1 : 2; a = 4.0; r += a.value() * 10 + a.has_value() * 100 + *a; a.reset(); return r + a.value_or(7) * 1000; }
double t_array() { std::array<double, 3> a{1, 2, 3}; a[1] = 5; double s = 0; for (double x : a) s += x; return s + a.size() * 100 + a.front() * 1000 + a.back(); }
double t_deque() { std::deque<int> d; d.push_back(1); d.push_front(2); d.emplace_back(3); d.pop_front(); return d.size() * 10 + d.front() + d[1] * 100; }
double t_list() { std::list<int> l{1, 2, 3}; l.remove(2); l.reverse(); return l.front() * 10 + l.back(); }
double t_list2() { std::list<int> l{1, 2, 3, 4}; l.remove_if([](int x) { return x > 2; }); return l.size() * 10 + l.back(); }
double t_list3() { std::list<int> l{1, 2}, m{3, 4}; l.splice(l.end(), m); return l.size() * 10 + l.back() + m.size(); }
double t_set() { std::set<int> s{3, 1, 2, 3}; s.insert(7); s.erase(1); double r = 0; for (int x : s) r = r * 10 + x; return r + s.count(7) * 1000; }
double t_uset() { std::set<int> s; return s.insert(4).second * 10 + s.insert(4).second; }
double t_multiset() { std::multiset<double> s{3, 1, 2, 1}; double r = 0; for (double x : s) r = r * 10 + x; return r; }
double t_multimap() { std::multimap<int, int> s; s.insert({2, 1}); s.insert({1, 5}); s.insert({2, 3}); double r = 0; for (auto &x : s) r = r * 10 + x.second; return r; }
double t_map() { std::map<int, double> m; m[3] = 2; m.emplace(1, 5.0); m.insert_or_assign(3, 7.0); m.try_emplace(1, 9.0); return m.begin()->second + m.rbegin()->second * 10 + m.at(3) * 100; }
double t_map2() { std::map<int, double> m{{1, 2}, {5, 3}, {9, 4}}; auto it = m.lower_bound(4); auto u = m.upper_bound(5); return it->first * 10 + u->first; }
double t_umap() { std::unordered_map<int, double> m{{1, 2}, {5, 3}}; auto it = m.find(5); m.erase(it); return m.size() * 10 + m.count(5) + m.at(1); }
double t_tuple() { auto t = std::make_tuple(1, 2.5); auto [a, b] = t; int c; double d; std::tie(c, d) = t; return a + b + c * 10 + d * 100 + std::get<0>(t) * 1000; }
double t_pair() { std::pair<int, double> p(1, 2.5); auto q = p; q.first = 7; std::swap(p, q); return p.first * 10 + q.first + (p < q ? 100 : 0) + (p == q ? 1000 : 0); }
double t_minmax() { auto p = std::minmax(3.0, 2.0); return p.first * 10 + p.second + std::max({1.0, 4.0, 2.0}) * 100 + std::min({1.5, 4.0}) * 1000; }
double t_rotate() { std::vector<int> v{1, 2, 3, 4}; std::rotate(v.begin(), v.begin() + 1, v.end()); return v[0] * 10 + v[3]; }
double t_vec() { std::vector<int> v; v.reserve(3); v.assign(3, 4); v.insert(v.begin() + 1, 9); v.insert(v.end(), {5, 6}); v.erase(v.begin()); v.resize(7); double s = 0; for (auto x : v) s = s * 10 + x; return s; }
double t_vec2() { std::vector<int> a{1, 2, 3}; std::vector<int> b(a.begin() + 1, a.end()); b.insert(b.end(), a.begin(), a.end()); b.pop_back(); std::vector<int> c(b.rbegin(), b.rend()); double s = 0; for (auto x : c) s = s * 10 + x; return s; }
double t_vec3() { std::vector<std::vector<int>> a(2, std::vector<int>(2, 3)); a[1].push_back(4); a.emplace_back(); a.back() = a[1]; return a[2].size() * 10 + a[2][2] + a.at(0).size(); }
double t_shared() { auto p = std::make_shared<std::pair<int, int>>(1, 2); std::shared_ptr<std::pair<int, int>> q = p; q->first = 5; std::weak_ptr<std::pair<int, int>> w = p; p.reset(); return q->first * 10 + (p ? 1 : 0) + q.use_count() * 0; }
double t_unique_ptr() { std::unique_ptr<double> p(new double(4)); *p += 1; auto q = std::move(p); return *q + (p == nullptr ? 10 : 0); }
double t_switch() { double r = 0; for (int i = 0; i < 5; ++i) { switch (i) { case 0: r += 1; break; case 1: case 2: r += 10; if (i == 2) break; [[fallthrough]]; case 3: r += 100; break; default: r += 1000; } } return r; }
double t_dowhile() { int i = 0; double r = 0; do { if (++i == 3) continue; r = r * 10 + i; } while (i < 5); return r; }
double t_goto() { double r = 0; int i = 0; while (true) { if (i > 3) break; r += i++; } return r; }
double t_int() { unsigned a = 3, b = 5; int c = -7; return (a - b > 10 ? 1 : 0) + 10 * (c / 2) + 100 * (c % 3) + 1000 * (a << 2) + ((unsigned char)(300)) + (c >> 1); }
double t_cast() { double x = 3.99, y = -3.99; return static_cast<int>(x) * 10 + (int)y + static_cast<unsigned>(x) + static_cast<float>(0.1) * 0; }
double t_bits() { unsigned a = 6; a |= 1; a &= ~2u; a ^= 8; return a; }
double t_ternary() { double a = 2; double &r = a > 1 ? a : a; r += 1; return a + (a > 2 ? 10 : 20); }
double t_comma() { int a = (1, 2); int b; return (b = a + 1, b * 2); }
double t_static() { auto f = []() { static int n = 0; return ++n; }; f(); f(); return f(); }
double t_capture() { int a = 1, b = 2; auto f = [a, &b]() mutable { a += 5; b += a; return a; }; double r = f() + f() * 10; return r + a * 100 + b * 1000; }
double t_initcap() { std::vector<int> v{1, 2}; auto f = [w = std::move(v), n = 3]() { return w.size() * n; }; return f(); }
double t_recursion() { std::function<int(int)> f = [&f](int n) { return n < 2 ? 1 : n * f(n - 1); }; return f(5); }
template <typename F> double fold(F f, int n) { double r = 0; for (int i = 0; i < n; ++i) r = f(r, i); return r; }
double t_template() { return fold([](double a, int i) { return a + i * i; }, 4); }
struct S { int a = 1; double b{2}; int arr[3] = {4, 5, 6}; double get() const { return a + b; } static double k(int i) { return i * 2; } S &set(int x) { a = x; return *this; } bool operator<(const S &o) const { return a < o.a; } double operator()(double x) const { return x * b; } };
struct D : S { int c = 9; explicit D(int x) : c(x) { a = x; } };
double t_struct() { S s; s.set(4).set(5); S t = s; t.arr[1] = 9; S u{7, 8.0, {1, 2, 3}}; return s.get() + t.arr[1] * 10 + s.arr[1] * 100 + S::k(3) * 1000 + u.b + t(2) + (s < u ? 10000 : 0); }
double t_derived() { D d(3); S &s = d; s.b = 7; return d.get() * 10 + d.c; }
double t_memfn() { S s; auto f = &S::get; double S::*p = &S::b; s.*p = 5; return (s.*f)(); }
double t_ptr() { double a[3] = {1, 2, 3}; double *p = a; ++p; *p = 7; return a[1] + p[1] * 10 + *(a + 0) * 100 + (p - a) * 1000; }
double t_string() { std::string s = "ab"; s += "c"; return s.size() + (s == "abc" ? 10 : 0) + (s < "abd" ? 100 : 0) + s.substr(1).size() * 1000 + s.find('c') * 10000 + (s.empty() ? 1 : 0); }
double t_tostring() { return std::to_string(12).size() + std::stod("2.5") + std::stoi("7"); }
enum class E { A, B = 5, C };
double t_enum() { E e = E::C; return static_cast<int>(e) + (e == E::C ? 10 : 0); }
double t_fp() { double x = 0.7; return std::fabs(-x) + std::hypot(3.0, 4.0) + std::fmod(7.5, 2.0) + std::cbrt(8.0) + std::copysign(2.0, -1.0) + std::round(2.5) + std::trunc(-1.5) + std::exp2(3) + std::log10(100.0) + std::fma(2.0, 3.0, 4.0) + std::asin(x) + std::acos(x) + std::atan(x) + std::atan2(x, -1.0) + std::tan(x) + std::sinh(x) + std::cosh(x) + std::tanh(x) + std::log1p(x) + std::expm1(x) + std::signbit(-x) + std::fmin(x, 1.0) + std::fmax(x, 1.0) + std::clamp(x, 0.0, 0.5) + std::lround(2.6) + std::ceil(x) + std::floor(-x); }
double t_limits() { return std::numeric_limits<int>::max() + (std::isinf(std::numeric_limits<double>::infinity()) ? 1.0 : 0.0) + (std::isnan(std::nan("")) ? 2 : 0) + (std::isfinite(1.0 / 0.0) ? 4 : 0) + (std::numeric_limits<float>::epsilon() > 0 ? 8 : 0) + (std::isnormal(1.0) ? 16 : 0); }
double e_left() { MX a = mat(3, 3, 1), b = mat(3, 3, 2); a.applyOnTheLeft(b); b.applyOnTheRight(a); return h(a) + h(b); }
double e_qr() { MX a = mat(5, 3, 1), b = mat(5, 4, 2); Eigen::HouseholderQR<MX> qr(a); MX c = qr.householderQ().transpose() * b; b.applyOnTheLeft(qr.householderQ().adjoint()); return (c - b).norm() + 1; }
double e_colwise() { MX a = mat(3, 4, 1); return h(a.colwise().sum()) + h(a.rowwise().sum()) * 10 + h(a.colwise().norm()) + h(a.rowwise().mean()) + h(a.colwise().squaredNorm()); }
double e_colwise2() { MX a = mat(3, 4, 1); VX v = mat(3, 1, 5).col(0); a.colwise() += v; MX b = a.colwise() - v; MX c = a.rowwise() - a.colwise().mean(); return h(a) + h(b) * 10 + h(c); }
double e_coefwise() { MX a = mat(3, 2, 1); MX b = a.cwiseAbs2() + a.array().square().matrix() + a.cwiseAbs().cwiseSqrt() + a.array().abs().sqrt().matrix() + a.cwiseInverse() + a.array().cube().matrix() + a.array().exp().matrix() + a.array().sin().matrix() + a.array().cos().matrix() + a.array().inverse().matrix() + a.array().abs2().matrix(); return h(b); }
double e_minmax() { MX a = mat(3, 2, 1); return a.maxCoeff() + a.minCoeff() * 10 + a.prod() + a.cwiseAbs().maxCoeff() + a.lpNorm<1>() + a.lpNorm<Eigen::Infinity>() * 3 + a.lpNorm<2>(); }
double e_approx() { MX a = mat(3, 2, 1); MX b = a; b(0, 0) += 1e-14; MX z = MX::Zero(2, 2); MX i = MX::Identity(2, 2); return a.isApprox(b) + 10 * z.isZero() + 100 * a.isZero() + 1000 * i.isIdentity() + 10000 * a.isApprox(b, 1e-20); }
double e_selfadj() { MX a = mat(3, 3, 1); MX b = a.selfadjointView<Eigen::Upper>(); MX c = a.selfadjointView<Eigen::Lower>() * mat(3, 2, 4); return h(b) + h(c); }
double e_selfadj2() { MX a = mat(3, 3, 1); MX s = a * a.transpose() + 3 * MX::Identity(3, 3); MX x = s.selfadjointView<Eigen::Upper>().ldlt().solve(mat(3, 1, 2)); MX y = s.selfadjointView<Eigen::Lower>().llt().solve(mat(3, 1, 2)); return h(x) + h(y); }
double e_tri() { MX a = mat(3, 3, 1) + 4 * MX::Identity(3, 3); MX u = a.triangularView<Eigen::Upper>(); MX l = a.triangularView<Eigen::Lower>(); MX x = a.triangularView<Eigen::Upper>().solve(mat(3, 1, 2)); MX y = a.triangularView<Eigen::StrictlyUpper>(); return h(u) + h(l) * 2 + h(x) + h(y); }
double e_tri2() { MX a = mat(3, 3, 1); a.triangularView<Eigen::StrictlyLower>().setZero(); MX b = mat(3, 3, 4); b.triangularView<Eigen::Lower>() = b.transpose(); return h(a) + h(b); }
double e_unary() { MX a = mat(3, 2, 1); MX b = a.unaryExpr([](double x) { return x * x + 1; }); MX c = a.binaryExpr(b, [](double x, double y) { return x - y; }); return h(b) + h(c); }
double e_replicate() { MX a = mat(1, 2, 1); MX b = a.replicate(3, 2); MX c = a.reverse(); return h(b) + h(c); }
double e_aa() { Q q(Eigen::AngleAxis<double>(0.3, V3(0, 0, 1))); Q p = Eigen::AngleAxisd(0.2, V3::UnitX()) * Eigen::AngleAxisd(0.1, V3::UnitY()); V3 v = Eigen::AngleAxisd(0.4, V3::UnitZ()) * V3(1, 2, 3); M3 r = Eigen::AngleAxisd(0.4, V3::UnitZ()).toRotationMatrix(); Q s = q * Eigen::AngleAxisd(0.2, V3::UnitX()); Eigen::AngleAxisd aa(p); return h(q.coeffs()) + h(p.coeffs()) * 10 + h(v) + h(r) + h(s.coeffs()) + aa.angle() + h(aa.axis()); }
double e_quat() { Q q(1, 0.2, 0.3, 0.4); q.normalize(); Q p = q.inverse() * q.conjugate(); p.x() += 0.1; Q r(p.toRotationMatrix()); Q s(Eigen::Vector4d(0.1, 0.2, 0.3, 0.9)); Q t; t.setIdentity(); t.coeffs() << 0.1, 0.2, 0.3, 0.8; return h(p.coeffs()) + h(r.normalized().toRotationMatrix()) + s.w() + t.vec().norm() + q.dot(p) + t.norm() + t.squaredNorm() + q.angularDistance(Q::Identity()) + h(q.slerp(0.3, Q::Identity()).coeffs()) + h(q._transformVector(V3(1, 2, 3))); }
double e_quat2() { Q q = Q::Identity(); q *= Q(0.9, 0.1, 0, 0); q.w() = 0.5; q.vec() = V3(1, 2, 3); Q p(q); p.vec() *= 2.0; M3 m; m = q; V3 e = Q(0.9, 0.1, 0.2, 0.3).normalized().toRotationMatrix().eulerAngles(2, 1, 0); return h(q.coeffs()) + h(p.coeffs()) + h(m) + 0 * e(0) + (p.isApprox(q) ? 100 : 0) + (q.coeffs().allFinite() ? 10 : 0); }
double e_block() { MX a = mat(5, 5, 1); a.block<2, 2>(1, 1).setZero(); a.topRows(1) *= 2; a.bottomRightCorner(2, 2) = a.topLeftCorner(2, 2).transpose(); a.col(0).swap(a.col(1)); a.row(2) << 1, 2, 3, 4, 5; a.diagonal() += VX::Ones(5); a.diagonal().head(2) *= 3; a.rightCols<2>().leftCols(1).array() += 1; a.middleRows(1, 2).noalias() += mat(2, 5, 9); return h(a); }
double e_fixed() { M3 a = M3::Zero(); a << 1, 2, 3, 4, 5, 6, 7, 8, 9; V3 v(1, 2, 3); V3 w; w.fill(2); V3 u = V3::Constant(0.5); Eigen::Matrix<double, 6, 1> x; x << v, w; Eigen::Matrix<double, 2, 3> b; b.row(0) = v.transpose(); b.row(1) = w.transpose(); return h(a * v) + v.dot(w) + h(v.cross(u)) + h(x) + h(b) + x.segment<3>(1).sum() + x.tail<2>().norm() + h(v * w.transpose()) + (v.array() > 1.5).count() + v.head<2>().squaredNorm(); }
double e_arr() { MX a = mat(3, 2, 1); Eigen::ArrayXXd b = a.array(); b = b * 2 + 1; b /= a.array().abs() + 1; Eigen::Array<double, 3, 1> c(1, 2, 3); c += c * c; return h(b.matrix()) + c.sum() + (b > 0).all() + (b < 0.5).any() * 2 + h((b > 0.3).select(b, 0.0).matrix()) + h(b.max(0.2).matrix()) + h(b.min(0.2).matrix()) + h(b.pow(2).matrix()); }
double e_solve() { MX a = mat(3, 3, 1) + 4 * MX::Identity(3, 3); MX s = a * a.transpose(); MX b = mat(3, 2, 3); return h(a.inverse()) + a.determinant() + h(s.ldlt().solve(b)) + h(s.llt().solve(b)) + h(a.partialPivLu().solve(b)) + h(a.fullPivLu().solve(b)) + h(a.colPivHouseholderQr().solve(b)) + h(a.lu().inverse()) + a.trace() + h(MX(s.llt().matrixL())) + (s.ldlt().info() == Eigen::Success) + (s.llt().info() == Eigen::Success) + a.fullPivLu().rank() + (a.fullPivLu().isInvertible() ? 1 : 0); }
double e_map() { double d[4] = {1, 2, 3, 4}; Eigen::Map<Eigen::Vector4d> m(d); m(1) = 7; std::vector<double> v{1, 2, 3}; Eigen::Map<const Eigen::VectorXd> w(v.data(), v.size()); return d[1] + m.sum() + w.sum(); }
double e_resize() { MX a = mat(2, 2, 1); a.conservativeResize(3, 3); a.row(2).setConstant(1); a.col(2).setConstant(2); VX v = VX::Zero(2); v.conservativeResize(3); v(2) = 5; MX b; b.resize(2, 3); b.setZero(); MX c; c.setIdentity(3, 3); MX d; d.setZero(2, 2); MX e2 = MX::Constant(2, 2, 3.0); e2.resizeLike(c); e2.setOnes(); return h(a) + h(v) + b.size() + h(c) + h(d) + h(e2); }
double e_cast() { MX a = mat(2, 2, 1); Eigen::MatrixXf f = a.cast<float>(); return h(f.cast<double>()) * 0 + f.rows(); }
double e_skew() { V3 v(1, 2, 3); M3 s; s << 0, -v.z(), v.y(), v.z(), 0, -v.x(), -v.y(), v.x(), 0; return h(s) + h(v.homogeneous()) + h(v.hnormalized()) + h(v.asDiagonal() * s) + h(MX(v.asDiagonal())) + h(v.normalized()) + h(v.reverse()) + v.maxCoeff() + h(v.cwiseProduct(v)) + h(v.cwiseMax(2.0)); }
double e_svd() { MX a = mat(4, 3, 1); Eigen::JacobiSVD<MX> s(a, Eigen::ComputeFullV | Eigen::ComputeThinU); VX x = s.matrixV().col(2); return std::fabs(h(x)) * 0 + (a * x).norm() - s.singularValues()(2) + s.singularValues().sum(); }
double e_eig() { MX a = mat(3, 3, 1); MX s = a * a.transpose(); Eigen::SelfAdjointEigenSolver<MX> es(s); return es.eigenvalues()(0) + es.eigenvalues().sum() + h(es.eigenvectors() * es.eigenvalues().asDiagonal() * es.eigenvectors().transpose()); }
double e_isometry() { Eigen::Isometry3d t = Eigen::Isometry3d::Identity(); t.linear() = Eigen::AngleAxisd(0.3, V3::UnitZ()).toRotationMatrix(); t.translation() = V3(1, 2, 3); V3 p = t * V3(1, 1, 1); Eigen::Isometry3d u = t.inverse() * t; return h(p) + h(u.matrix()) + h(t.rotation()); }
double e_iter() { VX v = mat(4, 1, 1).col(0); double s = 0; for (int i = 0; i < v.size(); ++i) s += v[i]; for (double x : v) s += x * 2; return s; }
double e_seq() { MX a = mat(4, 4, 1); return h(a(Eigen::seq(1, 2), Eigen::all)) + h(a(Eigen::all, Eigen::last)); }
double e_pick() { MX a = mat(5, 5, 1); std::vector<int> keep{0, 1, 4}; MX b = a(keep, keep); a(keep, 1) *= 2; a({3, 1}, keep) = mat(2, 3, 4); VX v = a(Eigen::last, Eigen::all).transpose(); v(keep) << 7, 8, 9; std::array<int, 2> ix{2, 0}; return h(a) + 3 * h(b) + 7 * h(v) + 11 * h(a(ix, Eigen::seq(Eigen::last - 1, Eigen::last))) + a(Eigen::last, Eigen::last - 1) + h(a(Eigen::seqN(0, 3, 2), Eigen::lastN(2))) + h(v(Eigen::seq(0, Eigen::last, 2))); }
struct Deleg { double a = 1, b = 2; Deleg(double x, double y) : a(x), b(y) {} Deleg(double x) : Deleg(x, x * 2) { b += 1; } Deleg() : Deleg(5) {} };
double t_deleg() { Deleg d; Deleg e(3); return d.a + 10 * d.b + 100 * e.a + 1000 * e.b; }
struct Pr { V3 p; double d; };
static std::optional<Pr> lin(double x) { if (!(std::abs(x) > 0.5)) return std::nullopt; Pr o; o.p = V3(x, 2 * x, 3); o.d = x; return o; }
double t_optrec() { double s = 0; for (double x : {0.1, 0.7, 2.0}) { const auto r = lin(x); if (!r) { s += 1; continue; } s += r->d + r->p.sum() + (*r).p(0) + r.value().d; } return s; }
double t_optrec2() { double s = 0; if (const auto r = lin(3)) { const auto &[p, d] = *r; s = p(1) + d; } const std::optional<Pr> r = lin(0.9); const Pr c = *r; return s + c.d; }
static void fill(Eigen::Ref<MX> b, double a) { b(0, 0) = a; b.row(1).setConstant(a); }
template <typename D> static void fill2(Eigen::MatrixBase<D> &b, double a) { b(0, 0) = a; }
template <typename D> static void fill3(Eigen::MatrixBase<D> &&b, double a) { b(0, 0) = a; }
template <typename D> static void fill4(const Eigen::MatrixBase<D> &b, double a) { const_cast<Eigen::MatrixBase<D> &>(b)(0, 1) = a; }
static Eigen::Block<MX> blk(MX &m) { return m.block(0, 0, 1, 1); }
double e_alias1() { const double a = 0.7; MX m = MX::Zero(2, 4); fill(m, a); fill(m.block(0, 2, 2, 2), a); return m.sum(); }
double e_alias2() { const double a = 0.7; MX m = MX::Zero(2, 4); Eigen::Ref<MX> r = m.leftCols(2); r(1, 1) = a; Eigen::Ref<MX> r2(m); r2(0, 3) += a; return m.sum(); }
double e_alias3() { const double a = 0.7; MX m = MX::Zero(2, 4); auto r = m.row(1); r(0) = a; fill2(r, 2 * a); fill3(m.col(2), a); fill4(m, a); blk(m)(0, 0) = 3 * a; auto t = m.transpose(); t(3, 0) = 9 * a; auto &&u = m.col(1); u(1) = 5; auto d = m.leftCols(2).diagonal(); d(1) = 7 * a; return m.sum(); }
double e_alias4() { const double a = 0.7; MX m = MX::Zero(2, 4); auto put = [&m, a](auto &&b, double k) { b.setConstant(a * k); }; put(m.row(0), 2); put(m.block<1, 2>(1, 1), 3); Eigen::Block<MX> q = m.block(1, 0, 1, 1); q *= 0; q(0, 0) = a; auto c = m.block(0, 0, 1, 2); c = m.block(1, 0, 1, 2); c += m.block(1, 0, 1, 2); return m.sum(); }
double e_alias5() { const double a = 0.7; V3 v(a, 1, 2); auto h = v.head<2>(); h *= 2; auto s = v.segment(1, 2); s(1) = a; auto ar = v.array(); ar += 1; Eigen::Quaterniond q(1, a, 2, 3); auto ve = q.vec(); ve(1) = 5; auto co = q.coeffs(); return v.sum() + q.y() + co(3); }
struct Rf { int &r; double w; Rf(int &x) : r(x), w(0.5) {} void inc() { ++r; w *= 2; } int get() const { return r; } };
double t_c_refmember() { int k = 3; Rf a(k); a.inc(); Rf b = a; b.inc(); return k * 10 + a.w + b.w * 100; }
double t_c_bindmap() { std::map<int, V3> m; m[1] = V3(1, 2, 3); m[2] = V3(4, 5, 6); for (auto &[k, v] : m) v *= k; for (auto [k, v] : m) v *= 100; auto &[a, b] = *m.begin(); b(0) += 7; return m[1].sum() + m[2].sum() * 10 + a; }
double t_c_u32() { uint32_t a = 3, b = 5; uint32_t c = a - b; int d = a - b; int64_t e = static_cast<int64_t>(a) - b; uint64_t f = a - b; return (c > 100 ? 1 : 0) + d + e * 10 + (f == 4294967294ull ? 100 : 0) + (a - b > 0 ? 1000 : 0) + (d < 0 ? 10000 : 0); }
double t_c_mixcmp() { int i = -1; size_t n = 2; uint32_t u = 1; double r = 0; if (i < static_cast<int>(n)) r += 1; if (static_cast<size_t>(i) < n) r += 10; if (u - 2 < n) r += 100; if (i + u == 0) r += 1000; uint8_t b = 250; b += 10; r += b * 10000; int16_t s = 32767; s++; return r + (s < 0 ? 0.5 : 0); }
double t_c_div() { int a = -7, b = 2; double x = -7.9; return a / b + 10 * (a % b) + 100 * static_cast<int>(x) + 1000 * (7 / 2) + 10000 * (7 / 2.0) + (a >> 1) * 0.01 + ((1u << 5) | 3) * 1e5 + (6 & 3) + (6 ^ 3) * 0.1 + (~0u == 4294967295u); }
double t_c_switch() { double r = 0; for (int i = 0; i < 6; ++i) { switch (i) { case 0: r += 1; break; case 1: case 2: r += 10; [[fallthrough]]; case 3: r += 100; break; case 4: { continue; } default: r += 1000; } r += 0.5; } return r; }
double t_c_dowhile() { int i = 0, s = 0; do { if (++i == 3) continue; s += i; if (i > 5) break; } while (i < 10); while (true) { if (s-- < 10) break; } return s * 10 + i; }
double t_c_nested() { int s = 0; for (int i = 0; i < 4; ++i) { for (int j = 0; j < 4; ++j) { if (j == 2) continue; if (i == 3) break; s += i * 10 + j; } } for (int i = 0, j = 10; i < j; ++i, --j) s += j - i; return s; }
double t_c_ternlv() { double a = 1, b = 2; (a < b ? a : b) = 9; double &c = a > b ? a : b; c += 1; return a * 10 + b; }
double t_c_postinc() { int i = 1; int a = i++ + 5; int b = ++i * 2; std::vector<int> v{1, 2, 3}; size_t k = 0; v[k++] = 7; v[k] += v[k - 1]; auto it = v.begin(); int c = *it++; return a + 10 * b + 100 * v[0] + 1000 * v[1] + c * 1e5 + *it * 1e6; }
double t_c_short() { int n = 0; auto f = [&n](bool r) { ++n; return r; }; bool a = f(false) && f(true); bool b = f(true) || f(false); bool c = f(true) && f(false) || f(true); bool d = f(true) & f(false); return n + 10 * a + 20 * b + 40 * c + 80 * d; }
static double over(int x) { return x; }
static double over(double x) { return x * 10; }
static double over(const V3 &x, double k = 2) { return x.sum() * k; }
double t_c_over() { return over(1) + over(2.0) + over(V3(1, 1, 1)) + over(V3(1, 1, 1), 5); }
struct Abs { virtual ~Abs() = default; virtual double area(double k) const = 0; };
struct Sq : Abs { double a; explicit Sq(double x) : a(x) {} double area(double k) const override { return a * a * k; } };
struct Ci : Abs { double r = 2; double area(double k) const final { return 3 * r * r * k; } };
double t_c_abs() { std::vector<std::shared_ptr<Abs>> v; v.push_back(std::make_shared<Sq>(3)); v.push_back(std::make_shared<Ci>()); double s = 0; for (const auto &x : v) s = s * 100 + x->area(2); return s; }
struct Base { virtual ~Base() = default; virtual double f() const { return 1; } double g() const { return f() * 10; } };
struct Der : Base { double f() const override { return 2; } };
double t_c_virtual() { std::unique_ptr<Base> p = std::make_unique<Der>(); Der d; Base &b = d; return p->f() + b.g(); }
template <typename T2> static T2 sq(const T2 &x) { return x * x; }
template <int N> static double tn() { double s = 0; for (int i = 0; i < N; ++i) s += i; return s; }
double t_c_templ() { return sq(2.5) + sq(3) + tn<4>() * 100 + sq<float>(2); }
struct Vv { double x, y; Vv operator+(const Vv &o) const { return {x + o.x, y + o.y}; } Vv &operator+=(const Vv &o) { x += o.x; y += o.y; return *this; } bool operator<(const Vv &o) const { return x < o.x; } double operator[](int i) const { return i ? y : x; } double operator()(double k) const { return x * k; } explicit operator bool() const { return x != 0; } friend Vv operator*(double k, const Vv &v) { return {k * v.x, k * v.y}; } };
double t_c_oper() { Vv a{1, 2}, b{3, 4}; Vv c = a + b; c += 2 * a; std::vector<Vv> v{b, a}; std::sort(v.begin(), v.end()); return c.x + 10 * c[1] + c(100) + (a < b) * 1000 + (c ? 1e4 : 0) + v[0].x * 1e5; }
struct Th { int n = 1; std::vector<int> v; double run() { auto f = [this](int k) { n += k; v.push_back(n); }; f(2); f(3); auto g = [*this]() mutable { n = 100; return n; }; return g() + n + v.size() * 1000; } };
double t_c_this() { Th t; double r = t.run(); Th u = t; u.n = 0; u.v[0] = 50; return r + t.v[0] * 1e4 + u.v.size() * 1e6; }
double t_c_mutable() { int k = 5; auto f = [k]() mutable { return ++k; }; double r = f() + f() * 10; auto g = f; return r + g() * 100 + f() * 1000 + k * 1e5; }
static int fact(int n) { return n < 2 ? 1 : n * fact(n - 1); }
double t_c_rec() { return fact(6); }
double t_c_swap() { MX a = mat(2, 3, 1), b = mat(3, 2, 2); std::swap(a, b); std::vector<int> x{1, 2}, y{3}; x.swap(y); std::swap(x, y); int p = 1, q = 2; std::swap(p, q); std::pair<int, V3> s{1, V3(1, 2, 3)}, t{2, V3(4, 5, 6)}; std::swap(s, t); return h(a) + h(b) * 10 + x.size() + y.size() * 10 + p * 100 + s.second(0); }
double t_c_shared() { auto a = std::make_shared<Vv>(Vv{1, 2}); std::vector<std::shared_ptr<Vv>> v{a, a, nullptr}; v[0]->x = 9; auto b = std::make_shared<Vv>(*a); b->x = 1; v.erase(v.begin()); std::weak_ptr<Vv> w = a; return a->x + b->x * 10 + a.use_count() * 0 + (v[1] == nullptr) * 100 + (v[0] == a) * 1000 + (w.lock() ? 1e4 : 0) + (a != b) * 1e5; }
double t_c_erase() { std::map<int, int> m{{1, 1}, {2, 2}, {3, 3}, {4, 4}}; for (auto it = m.begin(); it != m.end();) { if (it->second % 2) it = m.erase(it); else ++it; } std::list<int> l{1, 2, 3, 4}; for (auto it = l.begin(); it != l.end();) it = *it == 2 || *it == 4 ? l.erase(it) : std::next(it); return m.size() * 10 + m.begin()->first + l.size() * 100 + l.back() * 1000; }
double t_c_byval() { auto f = [](std::vector<int> v, MX m, Vv s) { v.push_back(1); m(0, 0) = 0; s.x = 0; return v.size() + m(0, 0) + s.x; }; std::vector<int> v{1}; MX m = mat(2, 2, 1); Vv s{5, 6}; double r = f(v, m, s); return r + v.size() * 10 + h(m) + s.x * 100; }
double t_c_ptrelem() { std::vector<double> v{1, 2, 3}; double *p = &v[1]; *p = 7; const double &r = v[1]; v[1] += 1; V3 w(1, 2, 3); double *q = &w(2); *q = 10; double *z = nullptr; return r + w.sum() * 10 + (z == nullptr) * 1000 + (p ? 1e4 : 0); }
double t_c_static() { auto f = []() { static int n = 0; return ++n; }; f(); f(); return f(); }
double t_c_tie() { auto f = []() { return std::make_tuple(1, 2.5, V3(1, 2, 3)); }; auto [a, b, c] = f(); int x; double y; std::tie(x, y, std::ignore) = f(); auto t = f(); std::get<1>(t) = 8; return a + b + c.sum() + x * 100 + y * 1000 + std::get<1>(t) * 1e5; }
double t_c_move() { std::vector<int> a{1, 2, 3}; std::vector<int> b = std::move(a); a = {9}; MX m = mat(2, 2, 1); MX n2 = std::move(m); return a.size() + b.size() * 10 + h(n2); }
double t_c_float() { float a = 16777216.0f; float b = a + 1.0f; double c = 1e-10; float d = static_cast<float>(c); return (b == a ? 0 : 0) + (d > 0 ? 10 : 0) + std::abs(-3) * 100 + std::fabs(-2.5) + std::min<double>(3, 2.5) + std::max(1, 2); }
double t_c_init() { int a{}; double b{}; std::vector<double> v(3); std::array<int, 3> r{}; Vv s{}; std::pair<int, double> p; std::vector<Vv> w(2); bool c{}; return a + b + v[2] + r[1] + s.x + p.first + p.second + w[1].y + c; }
double t_c_alias() { V3 a(1, 2, 3); V3 &b = a; const V3 c = a; b *= 2; std::vector<V3> v{a, c}; V3 &f = v.front(); f(0) = 50; for (auto &x : v) x += V3::Ones(); for (auto x : v) x *= 0; return a.sum() + v[0].sum() * 10 + v[1].sum() * 100; }
double t_c_goto() { int i = 0; for (;;) { if (i == 4) break; ++i; } bool found = false; int at = -1; for (int k = 0; !found && k < 10; ++k) { if (k * k > 20) { found = true; at = k; } } return i + 10 * at; }
double t_c_const() { constexpr int N = 4; const int M = N * 2; enum { A = 3, B }; static constexpr double K = 0.5; int arr[N] = {1, 2}; int s = 0; for (int x : arr) s += x; for (int i = 0; i < N; ++i) arr[i] = i; return s + M * 10 + B * 100 + K + arr[3] * 1000 + sizeof(arr) / sizeof(arr[0]) * 1e4; }
double t_c_while() { std::deque<int> q{1, 2, 3}; int s = 0; while (!q.empty()) { int x = q.front(); q.pop_front(); if (x == 2) q.push_back(7); s = s * 10 + x; } return s; }
double t_c_map2() { std::unordered_map<int, std::vector<int>> m; m[3].push_back(1); m[3].push_back(2); m[5]; double r = m.size() + m.count(5) * 10 + m.count(6) * 100 + m.at(3).size() * 1000; auto it = m.find(3); if (it != m.end()) r += it->second.back() * 1e4; m.erase(5); auto [j, ok] = m.insert({3, {}}); auto [j2, ok2] = m.emplace(8, std::vector<int>{1}); r += ok * 1e5 + ok2 * 1e6 + j->second.size() * 1e7; return r + m.size() * 0.5; }
double e_comma() { MX a(4, 3); a << mat(2, 3, 1), mat(2, 3, 2); VX v(3); v << 1, 2, 3; return h(a) + h(v) + h((MX(1, 3) << 1, 2, 3).finished()); }
double t_glam1() { std::vector<double> v{1, 2, 3, 4}; const double x = 2.5; auto k = std::find_if(v.begin(), v.end(), [&](const auto &i) { return i > x; }); return *k; }
double t_glam2() { std::deque<std::shared_ptr<Pr>> v; for (int i = 0; i < 4; ++i) { v.push_back(std::make_shared<Pr>()); v.back()->d = i * 1.5; } auto k = std::find_if(v.begin(), v.end(), [](const auto &i) { return i->d > 2; }); v.erase(v.begin(), k); return v.size() * 10 + v.front()->d; }
double t_glam3() { std::vector<double> v{1, 2, 3}; std::vector<Pr> w(2); w[1].d = 4; auto f = [](const auto &a) { return a.d * 2; }; double s = 0; std::for_each(w.begin(), w.end(), [&](auto &a) { a.d += 1; s += f(a); }); return s + std::count_if(v.begin(), v.end(), [](auto a) { return a > 1; }); }
double t_glam4() { std::vector<std::pair<int, double>> v{{3, 0.5}, {1, 0.25}, {2, 0.75}}; std::sort(v.begin(), v.end(), [](const auto &a, const auto &b) { return a.second > b.second; }); return v[0].first * 100 + v[1].first * 10 + v[2].first; }
double t_glam5() { std::vector<double> v{1, 2, 3}; std::vector<double> o; std::transform(v.begin(), v.end(), std::back_inserter(o), [k = 2.0](auto a) { return a * k; }); return std::accumulate(o.begin(), o.end(), 0.0, [](auto a, auto b) { return a * 10 + b; }); }
namespace { double anon(double x) { return x * 3; } struct Hid { double v = 2; double operator()(double a) const { return a * v; } }; }
double t_d_anon() { Hid h2; return anon(2) + h2(3) + Hid{4}(5); }
double t_d_constexprif() { auto f = [](auto x) { if constexpr (std::is_integral_v<decltype(x)>) return x + 1.0; else return x * 2.0; }; return f(3) + f(2.5) * 10; }
template <typename It> static double sumr(It a, It b) { double s = 0; for (; a != b; ++a) s = s * 2 + *a; return s; }
double t_d_titer() { std::vector<double> v{1, 2, 3}; std::deque<double> d{4, 5}; std::list<int> l{6, 7}; return sumr(v.begin(), v.end()) + sumr(d.rbegin(), d.rend()) + sumr(l.cbegin(), l.cend()); }
template <typename F> static void each(std::vector<double> &v, F &&f) { for (size_t i = 0; i < v.size(); ++i) f(i, v[i]); }
double t_d_tfn() { std::vector<double> v{1, 2, 3}; double s = 0; each(v, [&](size_t i, double &x) { x *= 2; s += x * i; }); return s * 10 + v[2]; }
template <typename... A> static double vsum(A... a) { return (0.0 + ... + a); }
template <typename F, typename... A> static auto fwd(F &&f, A &&...a) { return f(std::forward<A>(a)...); }
double t_d_variadic() { return vsum(1, 2.5, 3) + fwd([](double a, double b) { return a * b; }, 2.0, 3.0); }
double t_d_stdfn() { std::function<double(double)> f = [](double x) { return x + 1; }; std::function<double(double)> g = f; f = [&g](double x) { return g(x) * 2; }; std::vector<std::function<double(double)>> v{f, g}; double s = 0; for (const auto &k : v) s = s * 100 + k(3); return s; }
static double fa(double x) { return x + 1; }
static double fb(double x) { return x * 7; }
double t_d_fptr() { double (*p)(double) = fa; double r = p(2); p = &fb; using Fn = double (*)(double); const Fn t[] = {fa, fb, p}; return r + p(2) * 10 + t[1](3) + t[0](1) + t[2](1); }
double t_d_tabl() { struct Row { const char *n; double v; int k; }; const Row t[] = {{"a", 1.5, 2}, {"b", 2.5, 3}}; double s = 0; for (const auto &r : t) s += r.v * r.k; for (const auto &[n, v, k] : t) s += v * 100 + k; return s + (std::string(t[1].n) == "b" ? 1e4 : 0); }
double t_d_tabp() { double a = 0, b = 0; const std::pair<const char *, double *> t[] = {{"a", &a}, {"b", &b}}; double k = 1; for (const auto &p : t) *p.second = k++; double *const q[] = {&b, &a}; *q[0] += 10; for (int i = 0; i < 2; ++i) *q[i] *= 2; return a * 100 + b; }
double t_d_ilist() { double s = 0; for (double x : {1.0, 2.0, 3.0}) s = s * 10 + x; for (const auto &p : {std::make_pair(1, 2.0), std::make_pair(3, 4.0)}) s += p.first * p.second; return s + std::max({1.0, 5.0, 3.0}) + std::min({4, 2, 8}); }
double t_d_ilref() { V3 a(1, 2, 3), b(4, 5, 6); for (V3 *p : {&a, &b}) (*p) *= 2; double s = 0; for (const V3 &x : {a, b}) s += x.sum(); for (auto r : {std::ref(a), std::ref(b)}) r.get()(0) = 9; return s + a(0) + b(0); }
enum class Col { R, G = 5, B };
static double cs(Col c) { switch (c) { case Col::R: return 1; case Col::G: return 2; default: return 3; } }
double t_d_enum() { Col c = Col::B; return cs(c) + cs(Col::G) * 10 + static_cast<int>(c) * 100 + (c == Col::B ? 1000 : 0) + (Col::R < Col::G ? 1e4 : 0); }
double t_d_optret() { auto f = [](double x) -> std::optional<double> { if (x < 0) return std::nullopt; return x * 2; }; double s = 0; if (auto r = f(3)) s += *r; if (auto r = f(-1); !r) s += 100; s += f(-2).value_or(7); auto o = f(4); if (o.has_value()) s += o.value() * 1000; o.reset(); return s + (o ? 1e6 : 0); }
double t_d_exch() { int a = 3; int b = std::exchange(a, 7); auto p = std::make_unique<int>(4); auto q = std::move(p); return a * 10 + b + (p == nullptr ? 100 : 0) + *q * 1000; }
double t_d_clamp() { return std::clamp(5.0, 1.0, 3.0) + std::hypot(3.0, 4.0) + std::abs(-2.5) + std::copysign(3.0, -0.5) + std::signbit(-1.0) + std::fmin(2.0, 1.0) + std::fmax(2.0, 1.0) + std::pow(2.0, 3) + std::floor(-1.5) + std::ceil(1.2) + std::round(2.5) + std::trunc(-2.7) + std::fmod(7.5, 2) + std::cbrt(27.0) + std::exp(0.0) + std::log(1.0) + std::log10(100.0) + std::atan2(1, 1) + std::asin(0.5) + std::lround(3.6); }
double t_d_lim() { return (std::numeric_limits<double>::infinity() > 1e300) + std::numeric_limits<double>::epsilon() * 1e16 + std::numeric_limits<uint32_t>::max() + std::isnan(std::numeric_limits<double>::quiet_NaN()) + (std::numeric_limits<float>::max() > 1e38) + (-std::numeric_limits<double>::max() == std::numeric_limits<double>::lowest()); }
double t_d_revloop() { std::vector<int> v{1, 2, 3, 4}; int s = 0; for (size_t i = v.size(); i-- > 0;) s = s * 10 + v[i]; for (int i = static_cast<int>(v.size()) - 1; i >= 0; i -= 2) s += v[i]; for (auto it = v.rbegin(); it != v.rend(); it += 2) s += *it * 100000; return s; }
double t_d_itarith() { std::vector<int> v{1, 2, 3, 4, 5}; auto a = v.begin() + 1, b = v.end() - 1; int s = 0; for (auto it = a; it < b; ++it) s = s * 10 + *it + static_cast<int>(it - v.begin()); s += std::distance(a, b); s += a[1] * 1000; v.erase(v.begin() + 1, v.begin() + 3); return s + v[1] * 1e5; }
double t_d_insert() { std::vector<int> v{1, 5}; v.insert(v.begin() + 1, 3); std::vector<int> w{8, 9}; v.insert(v.end(), w.begin(), w.end()); v.emplace(v.begin(), 7); v.insert(v.begin(), 2, 4); double s = 0; for (int x : v) s = s * 10 + x; return s; }
double t_d_resize() { std::vector<double> v; v.resize(3, 2.0); v.resize(5); v.assign(2, 4.0); v.push_back(1); v.pop_back(); std::vector<double> w(v); w.clear(); std::vector<double> x(3, 1.5); x.shrink_to_fit(); return v.size() * 100 + w.size() * 10 + x.at(2) + v.back() + (w.empty() ? 1000 : 0); }
double t_d_deq() { std::deque<int> d; d.push_back(2); d.push_front(1); d.emplace_back(3); d.emplace_front(0); d.insert(d.begin() + 2, 9); d.erase(d.begin()); double s = 0; for (size_t i = 0; i < d.size(); ++i) s = s * 10 + d[i]; auto it = std::find(d.begin(), d.end(), 9); s += std::distance(d.begin(), it) * 1e5; d.resize(2); return s + d.back() * 1e6; }
double t_d_umap() { std::unordered_map<uint32_t, std::shared_ptr<Vv>> m; m.insert(std::make_pair(3u, std::make_shared<Vv>(Vv{1, 2}))); m.emplace(4u, std::make_shared<Vv>(Vv{3, 4})); auto [it, ok] = m.try_emplace(3u, nullptr); double s = it->second->y + (ok ? 100 : 0); m.insert_or_assign(4u, std::make_shared<Vv>(Vv{5, 6})); if (auto k = m.find(4u); k != m.end()) s += k->second->x * 10; return s; }
double t_d_umap2() { std::unordered_map<int, double> m{{1, 2.0}, {2, 3.0}}; m.at(1) += 1; m.erase(2); double s = m.size() * 100 + m.at(1) + m.count(2); std::map<int, double> o(m.begin(), m.end()); o[0] = 4; s += o.begin()->second * 1000; s += o.lower_bound(1)->second * 1e5; s += o.rbegin()->first * 1e6; return s; }
double t_d_set() { std::set<int> s{3, 1, 2, 3}; double r = s.size(); for (int x : s) r = r * 10 + x; s.erase(2); r += s.count(2) + (s.insert(1).second ? 1e6 : 0) + *s.rbegin() * 1e5; return r; }
double t_d_minmax() { std::vector<double> v{3, 1, 4, 1.5}; auto [a, b] = std::minmax_element(v.begin(), v.end()); auto [c, d] = std::minmax(5, 2); return *a + *b * 10 + c * 100 + d * 1000; }
double t_d_bounds() { std::vector<int> v{1, 2, 2, 5, 8}; return (std::lower_bound(v.begin(), v.end(), 2) - v.begin()) + (std::upper_bound(v.begin(), v.end(), 2) - v.begin()) * 10 + (std::binary_search(v.begin(), v.end(), 5) ? 100 : 0) + (std::lower_bound(v.begin(), v.end(), 9) == v.end() ? 1000 : 0) + (std::partition_point(v.begin(), v.end(), [](int x) { return x < 4; }) - v.begin()) * 1e4; }
double t_d_iota() { std::vector<int> v(5); std::iota(v.begin(), v.end(), 3); std::reverse(v.begin(), v.end()); std::rotate(v.begin(), v.begin() + 2, v.end()); std::swap(v[0], v[4]); std::iter_swap(v.begin(), v.begin() + 1); double s = 0; for (int x : v) s = s * 10 + x; std::fill(v.begin(), v.end(), 2); return s + std::accumulate(v.begin(), v.end(), 0) * 1e5; }
double t_d_inner() { std::vector<double> a{1, 2, 3}, b{4, 5, 6}; return std::inner_product(a.begin(), a.end(), b.begin(), 0.5) + std::accumulate(a.begin(), a.end(), 1.0, std::multiplies<double>()) + (std::equal(a.begin(), a.end(), b.begin()) ? 1000 : 0) + (a == b ? 1e4 : 0) + (a < b ? 1e5 : 0) + std::count(a.begin(), a.end(), 2.0); }
double t_d_sort2() { std::vector<std::pair<double, int>> v{{0.5, 3}, {0.25, 1}, {0.75, 2}}; std::sort(v.begin(), v.end(), std::greater<>()); double s = 0; for (auto &p : v) s = s * 10 + p.second; std::partial_sort(v.begin(), v.begin() + 1, v.end()); std::nth_element(v.begin(), v.begin() + 1, v.end()); std::stable_sort(v.begin(), v.end(), [](const auto &a, const auto &b) { return a.second < b.second; }); for (auto &p : v) s = s * 10 + p.second; return s; }
double t_d_partition() { std::vector<int> v{1, 2, 3, 4, 5, 6}; auto it = std::stable_partition(v.begin(), v.end(), [](int x) { return x % 2 == 0; }); double s = it - v.begin(); for (int x : v) s = s * 10 + x; v.erase(std::unique(v.begin(), v.end()), v.end()); return s + v.size(); }
struct Rai { double &x; explicit Rai(double &y) : x(y) { x += 1; } ~Rai() { x *= 10; } };
double t_d_raii() { double x = 2; { Rai r(x); x += 3; } { Rai a(x), b(x); } auto f = [&]() { Rai r(x); return x; }; return f() + x * 1e6; }
struct Bld { double a = 0, b = 0; Bld &setA(double x) { a = x; return *this; } Bld &setB(double x) { b = x; return *this; } double go() const { return a * 10 + b; } };
double t_d_chain() { return Bld().setA(3).setB(4).go(); }
struct Cst { static constexpr double K = 2.5; static int n; inline static double z = 1.5; static double get() { return ++n * K; } };
int Cst::n = 0;
double t_d_statics() { Cst::n = 4; double r = Cst::get(); Cst::z += 1; return r + Cst::K + Cst::z * 100; }
struct Cp { std::vector<int> v; int n = 0; Cp() = default; Cp(const Cp &o) : v(o.v), n(o.n + 1) {} Cp &operator=(const Cp &o) { v = o.v; n = o.n + 10; return *this; } };
double t_d_copyct() { Cp a; a.v = {1, 2}; Cp b = a; Cp c; c = b; b.v[0] = 9; std::vector<Cp> w; w.reserve(4); w.push_back(c); return b.n + c.n * 10 + w[0].n * 100 + c.v[0] * 1e4; }
struct Nest { struct In { double x = 1; V3 p = V3::Zero(); } in; std::array<In, 2> arr; };
double t_d_nest() { Nest n; n.in.x = 5; n.arr[1].p(2) = 3; Nest m = n; m.arr[1].p(2) += 1; auto &q = m.arr[1]; q.x = 8; std::swap(n, m); return n.arr[1].p(2) + m.arr[1].p(2) * 10 + n.arr[1].x * 100 + m.in.x * 1000; }
double t_d_arr2() { double a[2][3] = {{1, 2, 3}, {4, 5, 6}}; double s = 0; for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) s = s * 2 + a[i][j]; for (auto &r : a) for (double &x : r) x += 1; std::array<std::array<int, 2>, 2> b{{{1, 2}, {3, 4}}}; return s + a[1][2] * 1000 + b[1][0] * 1e4; }
double t_d_boolop() { bool a = true, b = false; a &= b; b |= true; bool c = a ^ b; int f = 0; f |= 1 << 3; f |= 2; f &= ~2; return a + b * 2 + c * 4 + f * 10 + (!!f) * 1000 + (not a and b) * 1e4; }
double t_d_cond() { double x = 3; double s = x > 2 ? x > 5 ? 1 : 2 : 3; if (int k = static_cast<int>(x); k > 2) s += k * 10; else if (k == 1) s += 5; else s += k; return s; }
double t_d_comma2() { int i, j; double s = 0; for (i = 0, j = 5; i < j; ++i, --j) s = s * 10 + i + j; return s + (i++, i * j); }
double t_d_str() { std::string a = "cam"; a += std::to_string(3); std::string b = a + ".txt"; return (b == "cam3.txt") + b.size() * 10 + (a < b ? 1000 : 0) + (b.find(".") != std::string::npos ? 1e4 : 0) + (b.substr(0, 3) == "cam" ? 1e5 : 0) + (a.empty() ? 1e6 : 0); }
double t_d_refwrap() { std::vector<V3> v{V3(1, 2, 3), V3(4, 5, 6)}; std::vector<std::reference_wrapper<V3>> r(v.begin(), v.end()); r[0].get()(1) = 10; std::vector<const V3 *> p; for (const V3 &x : v) p.push_back(&x); return v[0](1) + p[1]->sum() * 100; }
double t_d_lambdarec() { std::function<int(int)> f = [&f](int n) { return n < 2 ? n : f(n - 1) + f(n - 2); }; auto g = [](auto &&self, int n) -> int { return n ? n + self(self, n - 1) : 0; }; return f(8) + g(g, 4) * 100; }
double t_d_lamret() { auto mk = [](double k) { return [k](double x) { return k * x; }; }; auto a = mk(2), b = mk(3); return a(5) + b(7) * 100; }
double t_d_lamiife() { const double x = [] { double s = 0; for (int i = 0; i < 4; ++i) s += i; return s; }(); const V3 v = [&]() -> V3 { if (x > 3) return V3::Ones() * x; return V3::Zero(); }(); return v.sum(); }
double t_d_structret() { struct R { bool ok; V3 p; double c; }; auto f = [](double k) { R r{}; if (k < 0) return r; r.ok = true; r.p << k, 1, 2; r.c = k * k; return r; }; const auto [ok, p, c] = f(3); auto bad = f(-1); return ok + p.sum() * 10 + c * 1000 + bad.ok * 1e6; }
double t_d_inherit() { struct A { double x = 1; double f() const { return x; } }; struct B : A { double y = 2; explicit B(double k) : A(), y(k) { x = k * 10; } double g() const { return A::f() + y; } }; B b(3); A &a = b; a.x += 1; A c = b; return b.g() + c.x * 1000; }
double t_d_using() { struct A { double x; A(double k) : x(k) {} }; struct B : A { using A::A; double z = 4; }; B b(2.0); return b.x + b.z; }
double t_d_conv() { struct Deg { double v; operator double() const { return v * 2; } explicit operator bool() const { return v > 0; } }; Deg d{3}; double r = d; if (d) r += 100; return r + std::sqrt(d + 3); }
double t_d_volat() { const int n = 5; int k = n; auto p = &k; (*p)++; int &r = *p; r *= 2; int **pp = &p; **pp -= 1; return k; }
double t_d_newdel() { auto *p = new Vv{1, 2}; p->x += 3; std::shared_ptr<Vv> s(p); std::unique_ptr<Vv> u(new Vv{5, 6}); std::shared_ptr<Vv> t = std::move(u); return s->x + t->y * 10 + s.use_count() * 100 + (s.get() == p ? 1000 : 0); }
double t_d_sharedarr() { std::vector<std::unique_ptr<Vv>> v; for (int i = 0; i < 3; ++i) v.emplace_back(std::make_unique<Vv>(Vv{double(i), 1})); v.erase(v.begin()); double s = 0; for (const auto &p : v) s = s * 10 + p->x; std::swap(v[0], v[1]); return s + v[0]->x * 100; }
double t_d_goto2() { int i = 0; loop: if (i < 5) { ++i; if (i != 3) goto loop; } return i; }
double t_d_try() { double r = 0; try { r = 1; } catch (...) { r = 2; } return r; }
double t_d_asserts() { static_assert(sizeof(int) == 4, ""); int n = sizeof(double) + alignof(int); [[maybe_unused]] int u = 3; (void)u; return n; }
double t_d_u8() { uint8_t a = 250; a += 10; int8_t b = static_cast<int8_t>(200); uint16_t c = 65535; ++c; char d = 'a' + 1; return a + b * 10 + c * 100 + (d == 'b') * 1000; }
double t_d_i64() { int64_t a = int64_t(1) << 40; size_t n = 3; long k = -2; auto d = a / 1000 + static_cast<int64_t>(n) * k; return d % 100007; }
double t_d_ssize() { std::vector<int> v{1, 2, 3}; int s = 0; for (auto i = std::size(v); i != 0; --i) s = s * 10 + v[i - 1]; return s + *std::begin(v) * 1000 + std::empty(v) + std::data(v)[2] * 1e4; }
double e_f_auto() { MX a = mat(3, 3, 1), b = mat(3, 3, 2); auto s = a + b; a(0, 0) = 100; MX c = s; auto t = (a * b).eval(); b.setZero(); const auto &d = a.col(1); a(2, 1) = 7; return h(c) + h(t) + d.sum(); }
double e_f_noalias() { MX a = mat(3, 3, 1), b = mat(3, 2, 2), c(3, 2); c.noalias() = a * b; c.noalias() += a * b * 2; c.noalias() -= b; a *= a; return h(c) + h(a); }
double e_f_transin() { MX a = mat(3, 3, 1); a.transposeInPlace(); MX b = mat(2, 4, 2); b.transposeInPlace(); MX s = (a + a.transpose()) / 2; return h(a) + h(b) * 2 + h(s) * 3; }
double e_f_blockops() { MX a = mat(5, 5, 1); a.block(1, 1, 2, 2) += MX::Identity(2, 2); a.topRows(2).swap(a.bottomRows(2)); a.row(0).swap(a.row(4)); a.middleCols(1, 2) *= 2; a.col(3).head(2).setZero(); a.bottomLeftCorner(2, 2).transpose().row(0).setOnes(); return h(a); }
double e_f_blockt() { Eigen::Matrix<double, 6, 6> a = mat(6, 6, 1); a.topLeftCorner<3, 3>().setIdentity(); a.block<3, 3>(3, 0).noalias() = a.block<3, 3>(0, 3) * 2; a.bottomRightCorner<2, 2>() -= a.topRightCorner<2, 2>(); a.middleRows<2>(1).setConstant(0.5); a.leftCols<1>() = a.rightCols<1>(); return h(a); }
double e_f_conserv() { MX a = mat(3, 3, 1); a.conservativeResize(4, 5); a.row(3).setZero(); a.rightCols(2).setZero(); a.conservativeResize(Eigen::NoChange, 4); VX v = mat(3, 1, 2); v.conservativeResize(5); v.tail(2) << 7, 8; return h(a) + h(v) * 2; }
double e_f_remove() { MX a = mat(5, 5, 1); const int r = 1, n = 2, m = 5 - n - r; a.block(r, 0, m, 5) = a.block(r + n, 0, m, 5).eval(); a.block(0, r, 5, m) = a.block(0, r + n, 5, m).eval(); a.conservativeResize(3, 3); return h(a); }
double e_f_ternary() { V3 a(1, 2, 3), b(4, 5, 6); const V3 c = a(0) > 2 ? a : b; const V3 d = a(0) > 2 ? V3(V3::Zero()) : V3(a.normalized()); V3 &e = b(0) > 2 ? a : b; e(1) = 50; return c.sum() + d.sum() + a(1); }
double e_f_reduce() { MX a = mat(3, 4, 1); Eigen::Index i, j; const double m = a.maxCoeff(&i, &j); return m + i * 10 + j * 100 + a.colwise().sum().sum() + a.rowwise().norm().sum() + a.colwise().squaredNorm().maxCoeff() + a.rowwise().mean().sum() + a.cwiseAbs().colwise().maxCoeff().sum() + a.trace() + a.prod() + a.mean() + a.lpNorm<1>() + a.lpNorm<Eigen::Infinity>() + a.minCoeff(); }
double e_f_bcast() { MX a = mat(3, 4, 1); V3 v(1, 2, 3); a.colwise() += v; a.rowwise() -= a.row(0).eval(); MX b = a.array().colwise() * v.array(); MX c = (a.colwise() - v).rowwise().reverse(); return h(a) + h(b) * 2 + h(c) * 3; }
double e_f_bool() { MX a = mat(3, 3, 1); return (a.array() > 0).any() + (a.array() > 5).any() * 10 + (a.array() < 2).all() * 100 + (a.array() > 0).count() * 1000 + a.allFinite() * 1e5 + a.hasNaN() * 1e6 + (a == a) * 1e7 + a.isApprox(a * (1 + 1e-14)) * 1e8 + MX::Identity(3, 3).isIdentity() + MX::Zero(2, 2).isZero() + ((a.array() > 0).select(a, -a)).sum(); }
double e_f_quat() { Q q(0.5, 0.1, -0.7, 0.3); q.normalize(); Q p(Eigen::AngleAxisd(0.7, V3(1, 2, 3).normalized())); Q r = q * p.inverse(); r *= q; M3 R = r.toRotationMatrix(); V3 v = r._transformVector(V3(1, 2, 3)); V3 u = r * V3(1, 2, 3); Q s(R); s.coeffs() *= (s.w() * r.w() < 0 ? -1 : 1); return h(R) + (v - u).norm() + u.sum() + r.angularDistance(q) + r.dot(p) + r.vec().sum() + s.w() + r.coeffs().sum() + q.conjugate().x() + q.norm() + q.squaredNorm() + Q::Identity().w() + p.matrix()(1, 2); }
double e_f_quat2() { Q q = Q::FromTwoVectors(V3(1, 2, 3), V3(0.3, -2, 1)); V3 v = q * V3(1, 2, 3).normalized(); Q p; p.setIdentity(); p.w() = 0.3; p.vec() << 0.1, 0.2, 0.3; p.normalize(); Q r; r = M3(q.toRotationMatrix().transpose()); Eigen::AngleAxisd a(p); Q u(V3(0.1, 0.2, 0.3)(0), 0, 0, 1); return v.sum() + p.w() + std::abs(r.w()) + a.angle() + a.axis().sum() + u.w() + q.isApprox(q) + r.conjugate().toRotationMatrix()(0, 1); }
double e_f_cast() { Eigen::Matrix<float, 3, 1> f(1.5f, 2.5f, 3.5f); V3 d = f.cast<double>() * 2; Eigen::Vector3i i = d.cast<int>(); MX m = mat(2, 2, 1).cast<float>().cast<double>(); return d.sum() + i.sum() + std::round(h(m) * 1e4) / 1e4; }
double e_f_solve() { MX a = mat(4, 4, 1) + 4 * MX::Identity(4, 4), b = mat(4, 2, 2), s = a * a.transpose(); return h(a.lu().solve(b)) + h(a.inverse()) + h(s.ldlt().solve(b)) + h(s.llt().solve(b)) + h(a.partialPivLu().solve(b)) + h(a.fullPivLu().solve(b)) + h(a.colPivHouseholderQr().solve(b)) + h(a.householderQr().solve(b)) + std::log(a.determinant()) + h(s.selfadjointView<Eigen::Upper>().ldlt().solve(b)); }
double e_f_tri() { MX a = mat(3, 3, 1) + 3 * MX::Identity(3, 3), b = mat(3, 2, 2); MX u = a.triangularView<Eigen::Upper>(); MX l = a.triangularView<Eigen::StrictlyLower>(); MX s = a.selfadjointView<Eigen::Lower>(); MX x = a.triangularView<Eigen::Upper>().solve(b); a.triangularView<Eigen::StrictlyUpper>() = a.transpose(); return h(u) + h(l) * 2 + h(s) * 3 + h(x) + h(a); }
double e_f_diag() { MX a = mat(3, 3, 1); a.diagonal() << 1, 2, 3; a.diagonal().array() += 0.5; MX d = a.diagonal().asDiagonal(); MX e = a * V3(1, 2, 3).asDiagonal(); MX f = V3(1, 2, 3).asDiagonal() * a; a.diagonal(1).setZero(); M3 g = V3::Constant(2).asDiagonal(); g += V3(1, 1, 1).asDiagonal().toDenseMatrix(); return h(a) + h(d) + h(e) + h(f) + h(g) + a.diagonal().prod(); }
double e_f_coefw() { MX a = mat(2, 3, 1), b = mat(2, 3, 2).array() + 3; return h(a.cwiseProduct(b)) + h(a.cwiseQuotient(b)) + h(a.cwiseAbs()) + h(b.cwiseSqrt()) + h(a.cwiseMax(0)) + h(a.cwiseMin(b)) + h(a.array().square().matrix()) + h(b.array().log().matrix()) + h((a.array() * b.array() + 1).matrix()) + h(b.cwiseInverse()) + h(a.array().abs().pow(2).matrix()) + h(a.array().exp().matrix()) + h(a.unaryExpr([](double x) { return x * 3; })) + h(a.array().sin().matrix()); }
double e_f_vecops() { V3 a(1, 2, 3), b(0.5, -1, 2); return a.dot(b) + a.cross(b).sum() + a.norm() + a.squaredNorm() + a.normalized().sum() + (a - b).lpNorm<2>() + a.transpose() * b + (a * b.transpose()).sum() + a.homogeneous().sum() + a.hnormalized().sum() + a.x() + a.y() * b.z() + a.reverse()(0) + a.cwiseProduct(b).sum() + (a.array() * 2 - 1).sum() + a.stableNorm() + V3::Unit(1).dot(a) + V3::UnitX().dot(a) + V3::Constant(2).sum() + VX::LinSpaced(3, 0, 2).sum(); }
double e_f_init() { M3 a; a << 1, 2, 3, 4, 5, 6, 7, 8, 9; V3 v{1, 2, 3}; Eigen::Matrix<double, 2, 3> b; b.row(0) = v.transpose(); b.row(1) << 4, 5, 6; MX c(3, 4); c << a, v; MX d(4, 3); d << a, v.transpose(); M3 e; e << v, v * 2, v * 3; Eigen::Vector4d f; f << v, 4; Eigen::Matrix<double, 1, 4> g; g << 1, v.transpose(); MX k = MX::Zero(2, 2); k.setConstant(3); k.fill(4); k.setIdentity(3, 3); M3 z = M3::Zero(); z(0) = 5; return h(a) + h(b) + h(c) + h(d) + h(e) + f.sum() + h(g) + h(k) + z(0, 0) + VX::Ones(4).sum() + MX::Constant(2, 2, 3).sum(); }
double e_f_index() { MX a = mat(4, 4, 1); VX v = mat(5, 1, 2); a(1, 2) += 3; v[1] *= 2; a.coeffRef(0, 0) = 9; const double x = a.coeff(1, 2); v(4) = 4; double s = a(Eigen::last, 0); for (Eigen::Index i = 0; i < a.rows(); ++i) s += a(i, i) * v(i); for (int i = 0; i < a.size(); ++i) s += a(i) * 0.1;  return s + x + a.rows() * 100 + a.cols() * 1000 + v.size(); }
static double rf(const Eigen::Ref<const MX> &m) { return m.sum() + m(0, 0); }
static void wf(Eigen::Ref<MX> m) { m.setConstant(2); m(0, 0) = 5; }
template <typename D> static double tf(const Eigen::MatrixBase<D> &m) { return m.sum() * 2 + m.rows(); }
template <typename D> static void tw(Eigen::MatrixBase<D> const &m) { const_cast<Eigen::MatrixBase<D> &>(m).setConstant(7); }
double e_f_ref() { MX a = mat(4, 4, 1); double r = rf(a) + rf(a.block(1, 1, 2, 2)) + rf(a * a); wf(a.topRows(2)); wf(a.block(2, 2, 1, 1)); return r + h(a) + tf(a.col(0)) + tf(a + a) + tf(V3(1, 2, 3)); }
double e_f_tw() { MX a = mat(3, 3, 1); tw(a.row(1)); return h(a); }
double e_f_stdvec() { std::vector<V3> v(3, V3(1, 2, 3)); v[1] *= 2; v.emplace_back(4, 5, 6); V3 s = std::accumulate(v.begin(), v.end(), V3(V3::Zero())); V3 t = V3::Zero(); for (const V3 &x : v) t += x.cwiseProduct(x); V3 u = std::accumulate(v.begin(), v.end(), V3::Zero().eval(), [](const V3 &a, const V3 &b) -> V3 { return a + 2 * b; }); return s.sum() + t.sum() * 10 + u.sum() * 100; }
double e_f_kron() { M3 a = mat(3, 3, 1); M3 b = a; b.col(0).normalize(); b.row(2) = b.row(0).cross(b.row(1)); const M3 R = b * a.transpose() - a; V3 e = (a * b).colwise().sum().transpose(); a.row(0) = a.row(1); a += b; a -= 2 * R; a /= 3; a = -a; a = a.transpose().eval(); return h(a) + e.sum(); }
double e_f_jsvd() { MX a = mat(5, 3, 1); Eigen::JacobiSVD<MX> s(a, Eigen::ComputeThinU | Eigen::ComputeThinV); VX x = s.solve(mat(5, 1, 2)); return s.singularValues().sum() + x.sum() + s.rank() + h(s.matrixU() * s.singularValues().asDiagonal() * s.matrixV().transpose()); }
double e_f_eig() { MX a = mat(3, 3, 1); MX s = a + a.transpose(); Eigen::SelfAdjointEigenSolver<MX> e(s); return e.eigenvalues().sum() * 10 + e.eigenvalues()(0) + h(e.eigenvectors() * e.eigenvalues().asDiagonal() * e.eigenvectors().transpose()); }
double e_f_aa() { M3 R = (Eigen::AngleAxisd(0.3, V3::UnitZ()) * Eigen::AngleAxisd(0.2, V3::UnitY())).toRotationMatrix(); M3 S; S = Eigen::AngleAxisd(0.3, V3::UnitX()); Eigen::AngleAxisd a(R); Q q(Eigen::AngleAxisd(0.4, V3::UnitY())); return h(R) + h(S) + a.angle() + q.w() + (a * V3(1, 2, 3)).sum() + (q * Eigen::AngleAxisd(0.1, V3::UnitX())).w(); }
double e_f_hstack() { std::vector<MX> v{mat(2, 3, 1), mat(1, 3, 2)}; int n = 0; for (const auto &m : v) n += m.rows(); MX o(n, 3); int r = 0; for (const auto &m : v) { o.middleRows(r, m.rows()) = m; r += m.rows(); } MX p = o.replicate(1, 2); return h(o) + h(p); }
double e_f_alias6() { MX a = mat(4, 4, 1); a.topRows(3) = a.bottomRows(3).eval(); MX &b = a; b = a * 2; a = a.block(0, 0, 2, 2).eval(); a = a * a; MX c = a; c.swap(a); std::swap(a, c); a = (a.transpose() * a).eval(); return h(a) + h(b); }
double e_g1() { MX a = mat(3, 3, 1), b = mat(3, 3, 2); auto s = a + b; a(0, 0) = 100; MX c = s; return h(c); }
double e_g2() { MX a = mat(3, 3, 1), b = mat(3, 3, 2); auto t = (a * b).eval(); b.setZero(); return h(t); }
double e_g3() { MX a = mat(3, 3, 1); const auto &d = a.col(1); a(2, 1) = 7; return d.sum(); }
double e_g4() { MX a = mat(3, 3, 1); a.conservativeResize(4, 5); a.row(3).setZero(); a.rightCols(2).setZero(); a.conservativeResize(Eigen::NoChange, 4); return h(a); }
double e_g5() { VX v = mat(3, 1, 2); v.conservativeResize(5); v.tail(2) << 7, 8; return h(v); }
double e_g7() { MX a = mat(3, 3, 1); a.diagonal() << 1, 2, 3; a.diagonal().array() += 0.5; return h(a); }
double e_g8() { MX a = mat(3, 3, 1); MX d = a.diagonal().asDiagonal(); MX e = a * V3(1, 2, 3).asDiagonal(); MX f = V3(1, 2, 3).asDiagonal() * a; return h(d) + h(e) * 2 + h(f) * 3; }
double e_g9() { MX a = mat(3, 3, 1); a.diagonal(1).setZero(); a.diagonal(-1) *= 2; return h(a); }
double e_g10() { M3 g = V3::Constant(2).asDiagonal(); g += V3(1, 1, 1).asDiagonal().toDenseMatrix(); return h(g); }
double e_g11() { MX a = mat(3, 3, 1); const V3 v(1, 2, 3); a += v.asDiagonal(); a -= 2 * MX(V3(1, 1, 1).asDiagonal()); MX b = v.asDiagonal().inverse(); return h(a) + h(b); }
double e_h1() { MX a = mat(3, 3, 1); a.conservativeResize(4, 5); a.row(3).setZero(); a.rightCols(2).setZero(); return h(a); }
double e_h2() { MX a = mat(3, 5, 1); a.conservativeResize(Eigen::NoChange, 4); return h(a) + a.cols() * 100 + a.rows() * 1000; }
double e_h3() { MX a = mat(3, 5, 1); a.conservativeResize(2, Eigen::NoChange); return h(a) + a.cols() * 100 + a.rows() * 1000; }
double e_h4() { MX a = mat(3, 3, 1), b = mat(3, 3, 2); const auto &s = a + b; a(0, 0) = 100; MX c = s; double k = 2; auto t = k * a; k = 3; return h(c) + h(t); }
double e_h5() { MX a = mat(3, 3, 1); auto f = a.transpose() * a; a *= 2; MX c = f; auto g = 2 * a; double s = 0; for (int i = 0; i < 3; ++i) { a(0, 0) = i; s += g.sum(); } return h(c) + s; }
double e_h6() { MX a = mat(3, 3, 1); const auto k = -a; const double z = 2; const auto l = k + z * a; a.setOnes(); V3 v = l.col(0); return v.sum() + l(1, 1) * 10; }
double e_k1() { Vv s{}; return s.x; }
double e_k2() { std::vector<Vv> w(2); return w[1].y; }
double e_k3() { std::pair<int, double> p; return p.first + p.second; }
double e_k4() { int a{}; double b{}; std::vector<double> v(3); std::array<int, 3> r{}; bool c{}; return a + b + v[2] + r[1] + c; }
double e_k5() { std::vector<double> v(3); return v[2]; }
double e_k6() { std::array<int, 3> r{}; return r[1]; }
double e_k7() { int a{}; double b{}; bool c{}; return a + b + c; }
double t_l1() { std::vector<int> v{1, 2, 4, 5}; auto it = std::adjacent_find(v.begin(), v.end(), [](const auto &a, const auto &b) { return b != a + 1; }); v[1] = 1; return (it - v.begin()) * 10 + (std::adjacent_find(v.begin(), v.end()) - v.begin()) + (std::adjacent_find(v.begin() + 1, v.end()) == v.end()); }
double t_l2() { std::vector<int> v{1, 2, 4, 5}, w{1, 2, 3, 5}; auto [a, b] = std::mismatch(v.begin(), v.end(), w.begin()); auto c = std::mismatch(v.begin(), v.end(), w.begin(), w.end(), [](int x, int y) { return x >= y; }); return *a * 10 + *b + (c.first == v.end()) * 100; }
double t_l3() { std::vector<int> v{1, 2, 4, 5}, w{2, 3, 5, 6}; return std::equal(v.begin(), v.end(), w.begin(), [](int x, int y) { return x + 1 == y; }) + 2 * std::equal(v.begin(), v.end(), w.begin(), w.end(), [](int x, int y) { return x == y; }) + 4 * std::is_sorted(v.begin(), v.end(), [](int x, int y) { return x > y; }) + 8 * std::is_sorted(v.rbegin(), v.rend(), std::greater<int>()); }
double t_l4() { std::vector<double> v{1, 3, 4, 9}, d(4); std::adjacent_difference(v.begin(), v.end(), d.begin()); std::for_each_n(d.begin(), 2, [](double &x) { x *= 10; }); std::copy_backward(v.begin(), v.begin() + 3, v.end()); std::vector<double> r; std::reverse_copy(v.begin(), v.end(), std::back_inserter(r)); std::swap_ranges(r.begin(), r.begin() + 2, d.begin()); double s = 0, k = 1; for (double x : v) s += x * (k *= 2); for (double x : r) s += x * (k *= 2); for (double x : d) s += x * (k *= 2); return s + std::transform_reduce(v.begin(), v.end(), 0.0, std::plus<>(), [](double x) { return x * x; }); }
double t_l5() { std::vector<int> v{1, 2, 4, 3, 5}; return (std::is_sorted_until(v.begin(), v.end()) - v.begin()) + std::is_sorted(v.begin(), v.end()) * 10; }
}
