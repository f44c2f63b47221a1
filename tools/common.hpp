// Helpers of the demonstrations.
#include <backend.hpp>
#include <config.hpp>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <limits>
#include <iostream>
#include <unistd.h>
#define DEMO_NS using namespace ESKF_VIO_BACKEND; using namespace std;
DEMO_NS
#define CHECK(c) do { if (!(c)) { std::fprintf(stderr, "demo: failed: %s (line %d)\n", #c, __LINE__); std::_Exit(1); } } while (0)
static inline bool nearv(double a, double b, double tol = 1e-5) { return std::fabs(a - b) <= tol; }
template <class A, class B> static bool nearm(const A &a, const B &b, double tol = 1e-5) { return a.rows() == b.rows() && a.cols() == b.cols() && (a - b).cwiseAbs().maxCoeff() <= tol; }
static inline bool nearq(const Quaternion &a, const Quaternion &b, double tol = 1e-5) { return std::min((a.coeffs() - b.coeffs()).norm(), (a.coeffs() + b.coeffs()).norm()) <= tol; }
static inline std::shared_ptr<IMUMessage> imu(double t, Vector3 a = Vector3(0, 0, 9.81), Vector3 g = Vector3(0, 0, 0)) { auto m = std::make_shared<IMUMessage>(); m->accel = a; m->gyro = g; m->timeStamp = t; return m; }
static inline std::shared_ptr<FeatureObserve> obs(std::map<uint32_t, Vector2> m) { auto o = std::make_shared<FeatureObserve>(); for (auto &x : m) o->norms[x.first] = x.second; return o; }
static inline std::shared_ptr<FeaturesMessage> feat(double t, std::vector<std::pair<uint32_t, std::map<uint32_t, Vector2>>> f = {}) {
    auto m = std::make_shared<FeaturesMessage>();
    m->timeStamp = t;
    for (auto &x : f) { m->ids.push_back(x.first); m->observes.push_back(obs(x.second)); }
    return m;
}
// two cameras looking along the body z axis, 0.3 apart, slightly turned
static inline void cameras(FrameManager &fm, int n = 2) {
    fm.extrinsics.clear();
    for (int i = 0; i < n; ++i) {
        Extrinsic e;
        e.q_bc = Quaternion(1, Scalar(0.01 * (i + 1)), Scalar(-0.02), Scalar(0.03 * i)).normalized();
        e.p_bc = Vector3(Scalar(0.3 * i), Scalar(0.05), Scalar(-0.02));
        fm.extrinsics.push_back(e);
    }
}
static inline Vector2 project(const FrameManager &fm, int c, const Quaternion &q, const Vector3 &p, const Vector3 &pw) {
    Vector3 x = fm.extrinsics[c].q_bc.inverse() * (q.inverse() * (pw - p) - fm.extrinsics[c].p_bc);
    return Vector2(x(0) / x(2), x(1) / x(2));
}
// a configured backend, without files
static inline void configure(Backend &b, int cams = 2, int window = 5) {
    cameras(b.frameManager, cams);
    b.frameManager.maxWindowSize = window;
    IMUFullState::gravity_w = Vector3(0, 0, Scalar(9.81));
    b.dataloader.imuPeriod = Scalar(0.01);
    b.attitudeEstimator.SetBias(Vector3::Zero(), Vector3::Zero());
    b.propagator.bias_a.setZero();
    b.propagator.bias_g.setZero();
    b.propagator.propagator = &b.frameManager;
    b.propagator.InitializeProcessNoiseMatrix(Scalar(1e-3), Scalar(1e-3), Scalar(1e-4), Scalar(1e-4));
    b.visionUpdator.propagator = &b.propagator;
    b.visionUpdator.featureManager = &b.featureManager;
    b.visionUpdator.frameManager = &b.frameManager;
    b.visionUpdator.trianglator = &b.trianglator;
    b.visionUpdator.pnpSolver = &b.pnpSolver;
    b.visionUpdator.measureNoise = Scalar(0.01);
}
