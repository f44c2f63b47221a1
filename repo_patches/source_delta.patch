From eadb5b3f59884e0cefb9dd24bccf8c34dd638743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:31 +0000
Subject: [PATCH 01/31] fix: PopOneMessage used references to queue elements
 after popping them

---
 eskf_vio_backend/src/data_manager/data_loader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eskf_vio_backend/src/data_manager/data_loader.cpp b/eskf_vio_backend/src/data_manager/data_loader.cpp
index ccc8391..007de3c 100644
--- a/eskf_vio_backend/src/data_manager/data_loader.cpp
+++ b/eskf_vio_backend/src/data_manager/data_loader.cpp
@@ -58,8 +58,8 @@ namespace ESKF_VIO_BACKEND {
         output->Clear();
         // 如果队列都不为空，则输出时间戳最旧的数据
         if (!this->imuMeas.empty() && !this->featMeas.empty()) {
-            auto &imu = this->imuMeas.front();
-            auto &feat = this->featMeas.front();
+            auto imu = this->imuMeas.front();
+            auto feat = this->featMeas.front();
             if (feat->timeStamp <= imu->timeStamp) {
                 output->featMeas = feat;
                 this->featMeas.pop_front();
-- 
2.43.0


From 92e4e3dcdd97d372839dcfa89ca401df0d778d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:31 +0000
Subject: [PATCH 02/31] fix: a rejected message lowered the time stamp
 watermark, which was shared by all loaders

---
 .../include/data_manager/data_loader.hpp             |  3 +++
 eskf_vio_backend/src/data_manager/data_loader.cpp    | 12 ++++++------
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/eskf_vio_backend/include/data_manager/data_loader.hpp b/eskf_vio_backend/include/data_manager/data_loader.hpp
index d4b5622..c834087 100644
--- a/eskf_vio_backend/include/data_manager/data_loader.hpp
+++ b/eskf_vio_backend/include/data_manager/data_loader.hpp
@@ -13,6 +13,9 @@ namespace ESKF_VIO_BACKEND {
         std::deque<std::shared_ptr<IMUMessage>> imuMeas;
         // 时间戳起点
         fp64 timeStampOffset = NAN;
+        // 两个数据流各自已接受的最新时间戳
+        fp64 lastFeatTimeStamp = -INFINITY;
+        fp64 lastImuTimeStamp = -INFINITY;
     public:
         // IMU 数据周期
         fp64 imuPeriod = 0.005;
diff --git a/eskf_vio_backend/src/data_manager/data_loader.cpp b/eskf_vio_backend/src/data_manager/data_loader.cpp
index 007de3c..0785500 100644
--- a/eskf_vio_backend/src/data_manager/data_loader.cpp
+++ b/eskf_vio_backend/src/data_manager/data_loader.cpp
@@ -9,6 +9,8 @@ namespace ESKF_VIO_BACKEND {
         this->featMeas.clear();
         this->imuMeas.clear();
         this->timeStampOffset = static_cast<fp64>(-1);
+        this->lastFeatTimeStamp = -INFINITY;
+        this->lastImuTimeStamp = -INFINITY;
     }
 
 
@@ -24,11 +26,10 @@ namespace ESKF_VIO_BACKEND {
         }
         newFeatMeas->timeStamp -= this->timeStampOffset;
         // 仅接受时间戳递增的输入
-        static fp64 lastTimeStamp = newFeatMeas->timeStamp - 1;
-        if (newFeatMeas->timeStamp > lastTimeStamp) {
+        if (newFeatMeas->timeStamp > this->lastFeatTimeStamp) {
             this->featMeas.emplace_back(newFeatMeas);
+            this->lastFeatTimeStamp = newFeatMeas->timeStamp;
         }
-        lastTimeStamp = newFeatMeas->timeStamp;
         return true;
     }
 
@@ -40,11 +41,10 @@ namespace ESKF_VIO_BACKEND {
             this->timeStampOffset = newImuMeas->timeStamp;
         }
         newImuMeas->timeStamp -= this->timeStampOffset;
-        static fp64 lastTimeStamp = newImuMeas->timeStamp - 1;
-        if (newImuMeas->timeStamp > lastTimeStamp) {
+        if (newImuMeas->timeStamp > this->lastImuTimeStamp) {
             this->imuMeas.emplace_back(newImuMeas);
+            this->lastImuTimeStamp = newImuMeas->timeStamp;
         }
-        lastTimeStamp = newImuMeas->timeStamp;
         return true;
     }
 
-- 
2.43.0


From 0b84bab154eb4db332dd46222a3dec78e8bc211f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:31 +0000
Subject: [PATCH 03/31] fix: Clear left a time origin of -1, so the origin was
 never taken from the data

---
 eskf_vio_backend/src/data_manager/data_loader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/data_manager/data_loader.cpp b/eskf_vio_backend/src/data_manager/data_loader.cpp
index 0785500..61f0850 100644
--- a/eskf_vio_backend/src/data_manager/data_loader.cpp
+++ b/eskf_vio_backend/src/data_manager/data_loader.cpp
@@ -8,7 +8,7 @@ namespace ESKF_VIO_BACKEND {
     void DataLoader::Clear(void) {
         this->featMeas.clear();
         this->imuMeas.clear();
-        this->timeStampOffset = static_cast<fp64>(-1);
+        this->timeStampOffset = NAN;
         this->lastFeatTimeStamp = -INFINITY;
         this->lastImuTimeStamp = -INFINITY;
     }
-- 
2.43.0


From 50ae8ae466a48ed9cf7d96bde54ae23b7689022d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:31 +0000
Subject: [PATCH 04/31] fix: null messages were dereferenced by the data loader

---
 eskf_vio_backend/src/data_manager/data_loader.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/data_manager/data_loader.cpp b/eskf_vio_backend/src/data_manager/data_loader.cpp
index 61f0850..57252b5 100644
--- a/eskf_vio_backend/src/data_manager/data_loader.cpp
+++ b/eskf_vio_backend/src/data_manager/data_loader.cpp
@@ -17,7 +17,7 @@ namespace ESKF_VIO_BACKEND {
     /* 输入一帧特征点追踪结果 */
     bool DataLoader::PushFeaturesMessage(const std::shared_ptr<FeaturesMessage> &newFeatMeas) {
         // 检查 newFeatMeas 中数据是否合规
-        if (newFeatMeas->ids.size() != newFeatMeas->observes.size()) {
+        if (newFeatMeas == nullptr || newFeatMeas->ids.size() != newFeatMeas->observes.size()) {
             return false;
         }
         // 校准时间戳
@@ -36,6 +36,9 @@ namespace ESKF_VIO_BACKEND {
 
     /* 输入一刻 IMU 量测结果 */
     bool DataLoader::PushIMUMessage(const std::shared_ptr<IMUMessage> &newImuMeas) {
+        if (newImuMeas == nullptr) {
+            return false;
+        }
         // 校准时间戳
         if (std::isnan(this->timeStampOffset)) {
             this->timeStampOffset = newImuMeas->timeStamp;
@@ -90,6 +93,9 @@ namespace ESKF_VIO_BACKEND {
 
     /* 仅当 features message 存在时，按时间戳输出下一捆数据 */
     bool DataLoader::PopPackedMessage(std::shared_ptr<CombinedMessage> &output) {
+        if (output == nullptr) {
+            output.reset(new CombinedMessage());
+        }
         output->Clear();
         // 如果队列为空，则返回 false
         if (this->imuMeas.empty() || this->featMeas.empty()) {
-- 
2.43.0


From 2f384b04b7e2d0afa8953e3d2b9b75a9ba5b5c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:31 +0000
Subject: [PATCH 05/31] fix: the backend reported success for messages its
 loader had refused

---
 eskf_vio_backend/src/backend/backend.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/eskf_vio_backend/src/backend/backend.cpp b/eskf_vio_backend/src/backend/backend.cpp
index 389b05c..e7f6643 100644
--- a/eskf_vio_backend/src/backend/backend.cpp
+++ b/eskf_vio_backend/src/backend/backend.cpp
@@ -6,15 +6,13 @@
 namespace ESKF_VIO_BACKEND {
     /* 输入一帧 IMU 数据 */
     bool Backend::GetIMUMessage(const std::shared_ptr<IMUMessage> &newImuMeas) {
-        this->dataloader.PushIMUMessage(newImuMeas);
-        return true;
+        return this->dataloader.PushIMUMessage(newImuMeas);
     }
 
 
     /* 输入一帧 Features 追踪数据 */
     bool Backend::GetFeaturesMessage(const std::shared_ptr<FeaturesMessage> &newFeatMeas) {
-        this->dataloader.PushFeaturesMessage(newFeatMeas);
-        return true;
+        return this->dataloader.PushFeaturesMessage(newFeatMeas);
     }
 
 
-- 
2.43.0


From 3693156dc3921d5075c499053061e3064c5e504b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:31 +0000
Subject: [PATCH 06/31] fix: RANSAC PnP looped forever when given fewer than
 three points

---
 eskf_vio_backend/src/geometry/perspective_n_point.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/geometry/perspective_n_point.cpp b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
index b71aec0..18c6089 100644
--- a/eskf_vio_backend/src/geometry/perspective_n_point.cpp
+++ b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
@@ -88,7 +88,7 @@ namespace ESKF_VIO_BACKEND {
                                        const std::vector<Vector2> &pts_2d,
                                        Quaternion &q_wc,
                                        Vector3 &p_wc) {
-        if (pts_3d.size() != pts_2d.size() || pts_3d.empty()) {
+        if (pts_3d.size() != pts_2d.size() || pts_3d.size() < 3) {
             return false;
         }
         uint32_t iter = this->ransacParam.maxIterateTimes;
-- 
2.43.0


From 77dac72c9f33ae8b12cc68a46c59366cb2f047d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:31 +0000
Subject: [PATCH 07/31] fix: RANSAC PnP returned the last hypothesis instead of
 the best one

---
 eskf_vio_backend/src/geometry/perspective_n_point.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eskf_vio_backend/src/geometry/perspective_n_point.cpp b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
index 18c6089..93c21b6 100644
--- a/eskf_vio_backend/src/geometry/perspective_n_point.cpp
+++ b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
@@ -140,6 +140,9 @@ namespace ESKF_VIO_BACKEND {
             }
             --iter;
         }
+        // 输出得分最高的模型
+        q_wc = best_q_wc;
+        p_wc = best_p_wc;
         return true;
     }
 
-- 
2.43.0


From 5cf80334f08e1a397c63ffbb99198bdadec71b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:31 +0000
Subject: [PATCH 08/31] fix: RANSAC PnP kept inlier flags of an earlier call

---
 eskf_vio_backend/src/geometry/perspective_n_point.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/geometry/perspective_n_point.cpp b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
index 93c21b6..57facb4 100644
--- a/eskf_vio_backend/src/geometry/perspective_n_point.cpp
+++ b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
@@ -155,7 +155,7 @@ namespace ESKF_VIO_BACKEND {
                                        Vector3 &p_wc,
                                        std::vector<bool> &isInlier) {
         RETURN_FALSE_IF_FALSE(this->EstimatePoseRANSAC(pts_3d, pts_2d, q_wc, p_wc));
-        isInlier.resize(pts_3d.size(), true);
+        isInlier.assign(pts_3d.size(), true);
         for (uint32_t i = 0; i < pts_3d.size(); ++i) {
             Vector3 p_c = q_wc.inverse() * (pts_3d[i] - p_wc);
             Vector2 r = Vector2(p_c(0) / p_c(2), p_c(1) / p_c(2)) - pts_2d[i];
-- 
2.43.0


From ecb928cadeea53aeb122eb56af06407e2732825e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:31 +0000
Subject: [PATCH 09/31] fix: the unimplemented P3P solver reported success

---
 eskf_vio_backend/src/geometry/perspective_n_point.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eskf_vio_backend/src/geometry/perspective_n_point.cpp b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
index 57facb4..217201e 100644
--- a/eskf_vio_backend/src/geometry/perspective_n_point.cpp
+++ b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
@@ -77,9 +77,9 @@ namespace ESKF_VIO_BACKEND {
         if (pts_3d.size() != pts_2d.size() || pts_3d.size() < 3) {
             return false;
         }
-        // TODO:
+        // TODO: 尚未实现，不能报告求解成功
 
-        return true;
+        return false;
     }
 
 
-- 
2.43.0


From cf65222cb10534fe193b84cc84a0a65625a7a8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:31 +0000
Subject: [PATCH 10/31] fix: CleanOldItems read the front of an empty queue

---
 eskf_vio_backend/src/propagate/attitude_estimate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/propagate/attitude_estimate.cpp b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
index bfdad83..501c9d2 100644
--- a/eskf_vio_backend/src/propagate/attitude_estimate.cpp
+++ b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
@@ -121,7 +121,7 @@ namespace ESKF_VIO_BACKEND {
         if (this->items.empty()) {
             return true;
         }
-        while (Scalar(timeStamp - this->items.front()->timeStamp) > threshold) {
+        while (!this->items.empty() && Scalar(timeStamp - this->items.front()->timeStamp) > threshold) {
             this->items.pop_front();
         }
         LogInfo(">> Attitude estimator reset at " << timeStamp << "s, " << this->items.size() <<
-- 
2.43.0


From 7d40548be9832827dad46ff2285bd1f6eba90014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:31 +0000
Subject: [PATCH 11/31] fix: the attitude estimator integrated the gyroscope
 with the wrong sign

---
 eskf_vio_backend/src/propagate/attitude_estimate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/propagate/attitude_estimate.cpp b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
index 501c9d2..ecc0067 100644
--- a/eskf_vio_backend/src/propagate/attitude_estimate.cpp
+++ b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
@@ -54,7 +54,7 @@ namespace ESKF_VIO_BACKEND {
             Vector3 gyrCorrect = gyrMid + err * this->Kp + this->errInt;
 
             // 更新姿态
-            Quaternion dq = Utility::DeltaQ(- gyrCorrect * static_cast<Scalar>(item_1->timeStamp - item_0->timeStamp));
+            Quaternion dq = Utility::DeltaQ(gyrCorrect * static_cast<Scalar>(item_1->timeStamp - item_0->timeStamp));
             item_1->q_wb = item_0->q_wb * dq;
             item_1->q_wb.normalize();
         }
-- 
2.43.0


From 5b80e10240ba3bf1f4931f03964365740d516277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:31 +0000
Subject: [PATCH 12/31] fix: the initial attitude was NaN for a level IMU and
 wrong for a tilted one

---
 eskf_vio_backend/src/propagate/attitude_estimate.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/eskf_vio_backend/src/propagate/attitude_estimate.cpp b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
index ecc0067..2002483 100644
--- a/eskf_vio_backend/src/propagate/attitude_estimate.cpp
+++ b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
@@ -19,12 +19,7 @@ namespace ESKF_VIO_BACKEND {
                 return false;
             }
             // 将重力加速度向量转化为旋转矩阵
-            Vector3 g_cross = g_imu.cross(g_word);
-            Scalar norm = g_cross.norm();
-            Vector3 u = g_cross / norm;
-            Scalar theta = std::atan2(norm, g_imu.transpose() * g_word);
-            Vector3 dq_v = u * theta;
-            Quaternion q_wb = Utility::DeltaQ(dq_v).normalized();
+            Quaternion q_wb = Quaternion::FromTwoVectors(g_imu, g_word);
             // 构造新的 item
             std::shared_ptr<AttitudeEstimateItem> newItem(new AttitudeEstimateItem());
             this->items.emplace_back(newItem);
-- 
2.43.0


From 807f2cde7f0c04da1deffef4cd3f2e7ea545f6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:31 +0000
Subject: [PATCH 13/31] fix: IMU samples handed over at initialization were
 bias-corrected twice

---
 eskf_vio_backend/src/propagate/attitude_estimate.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/eskf_vio_backend/src/propagate/attitude_estimate.cpp b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
index 2002483..cf6b1ed 100644
--- a/eskf_vio_backend/src/propagate/attitude_estimate.cpp
+++ b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
@@ -23,8 +23,8 @@ namespace ESKF_VIO_BACKEND {
             // 构造新的 item
             std::shared_ptr<AttitudeEstimateItem> newItem(new AttitudeEstimateItem());
             this->items.emplace_back(newItem);
-            newItem->accel = accel - this->bias_a;
-            newItem->gyro = gyro - this->bias_g;
+            newItem->accel = accel;
+            newItem->gyro = gyro;
             newItem->q_wb = q_wb.normalized();
             newItem->timeStamp = timeStamp;
             LogInfo(">> Attitude estimator init successfully.");
@@ -36,15 +36,15 @@ namespace ESKF_VIO_BACKEND {
             }
             std::shared_ptr<AttitudeEstimateItem> item_1(new AttitudeEstimateItem());
             this->items.emplace_back(item_1);
-            item_1->accel = accel - this->bias_a;
-            item_1->gyro = gyro - this->bias_g;
+            item_1->accel = accel;
+            item_1->gyro = gyro;
             item_1->timeStamp = timeStamp;
             
             // 利用加速度观测，修正角速度中值
             Vector3 acc_b_measure = accel / accel.norm();
             Vector3 acc_b_target = item_0->q_wb.inverse() * IMUFullState::gravity_w / IMUFullState::gravity_w.norm();
             Vector3 err = acc_b_measure.cross(acc_b_target);
-            Vector3 gyrMid = Scalar(0.5) * (item_0->gyro + item_1->gyro);
+            Vector3 gyrMid = Scalar(0.5) * (item_0->gyro + item_1->gyro) - this->bias_g;
             this->errInt += err * this->Ki;
             Vector3 gyrCorrect = gyrMid + err * this->Kp + this->errInt;
 
-- 
2.43.0


From d0a82520946be129eaac0840f615b5d87b33b383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:31 +0000
Subject: [PATCH 14/31] fix: re-initialization kept the propagation items of
 the previous run

---
 eskf_vio_backend/src/backend/backend_initialize.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eskf_vio_backend/src/backend/backend_initialize.cpp b/eskf_vio_backend/src/backend/backend_initialize.cpp
index 6254046..8b0aef6 100644
--- a/eskf_vio_backend/src/backend/backend_initialize.cpp
+++ b/eskf_vio_backend/src/backend/backend_initialize.cpp
@@ -130,6 +130,7 @@ namespace ESKF_VIO_BACKEND {
     bool Backend::InitializePropagator(const IMUMotionState &initState,
                                        const fp64 startTime) {
         // 首帧位置设置为原点，将首帧位姿和速度赋值给 propagator 的 initState
+        this->propagator.items.clear();
         this->propagator.initState.p_wb = initState.p_wb;
         this->propagator.initState.v_wb = initState.v_wb;
         this->propagator.initState.q_wb = initState.q_wb;
-- 
2.43.0


From 8185afb102af3ceffbbadffe80557b8928784922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:05 +0000
Subject: [PATCH 15/31] fix: a malformed matrix file was loaded as
 uninitialised values or written past the matrix

---
 eskf_vio_backend/src/config/config.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/eskf_vio_backend/src/config/config.cpp b/eskf_vio_backend/src/config/config.cpp
index 3a6b28e..4a727e8 100644
--- a/eskf_vio_backend/src/config/config.cpp
+++ b/eskf_vio_backend/src/config/config.cpp
@@ -116,13 +116,16 @@ namespace ESKF_VIO_BACKEND {
         std::string oneLine;
         mat.resize(rows, cols);
         uint32_t row = 0;
-        while (std::getline(fsMatrix, oneLine) && !oneLine.empty()) {
+        while (row < rows && std::getline(fsMatrix, oneLine) && !oneLine.empty()) {
             std::istringstream matData(oneLine);
             for (uint32_t col = 0; col < cols; ++col) {
-                matData >> mat(row, col);
+                if (!(matData >> mat(row, col))) {
+                    return false;
+                }
             }
             ++row;
         }
-        return true;
+        // 行数不足时，矩阵没有被完整载入
+        return row == rows;
     }
 }
\ No newline at end of file
-- 
2.43.0


From f836cfa61be8850f39d3be3364667d0c87382b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:05 +0000
Subject: [PATCH 16/31] fix: the extrinsic rotation read from a rounded matrix
 was not a unit quaternion

---
 eskf_vio_backend/src/config/config.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/config/config.cpp b/eskf_vio_backend/src/config/config.cpp
index 4a727e8..09060fb 100644
--- a/eskf_vio_backend/src/config/config.cpp
+++ b/eskf_vio_backend/src/config/config.cpp
@@ -46,7 +46,7 @@ namespace ESKF_VIO_BACKEND {
         this->vision.maxCameraNum = 0;
         while (this->LoadMatrix(configPath + "/T_bc" + std::to_string(this->vision.maxCameraNum) + ".txt", 4, 4, tempMat) == true) {
             const Vector3 p_bc(tempMat.topRightCorner<3, 1>());
-            const Quaternion q_bc(tempMat.topLeftCorner<3, 3>());
+            const Quaternion q_bc = Quaternion(tempMat.topLeftCorner<3, 3>()).normalized();
             this->vision.default_p_bc.emplace_back(p_bc);
             this->vision.default_q_bc.emplace_back(q_bc);
             ++this->vision.maxCameraNum;
-- 
2.43.0


From faa6340c8694d5431d1ff2b14257bcd20b15a1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:05 +0000
Subject: [PATCH 17/31] fix: observations of a camera without extrinsics
 indexed past the extrinsics

---
 eskf_vio_backend/src/backend/backend_initialize.cpp      | 4 ++++
 eskf_vio_backend/src/update/multi_view_vision_update.cpp | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/eskf_vio_backend/src/backend/backend_initialize.cpp b/eskf_vio_backend/src/backend/backend_initialize.cpp
index 8b0aef6..8bd5ead 100644
--- a/eskf_vio_backend/src/backend/backend_initialize.cpp
+++ b/eskf_vio_backend/src/backend/backend_initialize.cpp
@@ -66,6 +66,10 @@ namespace ESKF_VIO_BACKEND {
 
             auto multiview = feature->observes[frame->id - feature->firstFrameID]->norms;
             for (auto it = multiview.begin(); it != multiview.end(); ++it) {
+                // 没有外参的相机，其观测无法使用
+                if (it->first >= this->frameManager.extrinsics.size()) {
+                    continue;
+                }
                 const Quaternion &q_bc = this->frameManager.extrinsics[it->first].q_bc;
                 const Vector3 &p_bc = this->frameManager.extrinsics[it->first].p_bc;
                 /* T_wc = T_wb * T_bc */
diff --git a/eskf_vio_backend/src/update/multi_view_vision_update.cpp b/eskf_vio_backend/src/update/multi_view_vision_update.cpp
index 36a1ffd..ee6a6c3 100644
--- a/eskf_vio_backend/src/update/multi_view_vision_update.cpp
+++ b/eskf_vio_backend/src/update/multi_view_vision_update.cpp
@@ -126,6 +126,10 @@ namespace ESKF_VIO_BACKEND {
             const Vector3 &p_wb = frame->p_wb;
             for (auto it = feature->observes[i]->norms.begin(); it != feature->observes[i]->norms.end(); ++it) {
                 const uint32_t cameraID = it->first;
+                // 没有外参的相机，其观测无法使用
+                if (cameraID >= this->frameManager->extrinsics.size()) {
+                    continue;
+                }
                 const Quaternion &q_bc = this->frameManager->extrinsics[cameraID].q_bc;
                 const Vector3 &p_bc = this->frameManager->extrinsics[cameraID].p_bc;
 
@@ -233,6 +237,11 @@ namespace ESKF_VIO_BACKEND {
             uint32_t frameIdx = frameID - this->frameManager->frames.front()->id;
             for (auto it = feature->observes[i]->norms.begin(); it != feature->observes[i]->norms.end(); ++it) {
                 uint32_t cameraIdx = it->first;
+                // 没有外参的相机，其观测无法使用，对应的行保持为零
+                if (cameraIdx >= this->frameManager->extrinsics.size()) {
+                    row += 2;
+                    continue;
+                }
                 // 提取出计算雅可比与残差的相关变量
                 Vector3 &p_bc = this->frameManager->extrinsics[cameraIdx].p_bc;
                 Matrix33 R_cb(this->frameManager->extrinsics[cameraIdx].q_bc.inverse());
-- 
2.43.0


From 769b1292ac85bce5561c98bb8b01953e89048955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:05 +0000
Subject: [PATCH 18/31] fix: the frame pose estimation read the extrinsics of
 camera 0 when there is none

---
 eskf_vio_backend/src/backend/backend_initialize.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eskf_vio_backend/src/backend/backend_initialize.cpp b/eskf_vio_backend/src/backend/backend_initialize.cpp
index 8bd5ead..8f0c189 100644
--- a/eskf_vio_backend/src/backend/backend_initialize.cpp
+++ b/eskf_vio_backend/src/backend/backend_initialize.cpp
@@ -117,6 +117,7 @@ namespace ESKF_VIO_BACKEND {
         // 仅对 T_wc0 进行估计
         Quaternion &q_wb = frame->q_wb;
         Vector3 &p_wb = frame->p_wb;
+        RETURN_FALSE_IF_TRUE(this->frameManager.extrinsics.empty());
         const Quaternion &q_bc = this->frameManager.extrinsics[0].q_bc;
         const Vector3 &p_bc = this->frameManager.extrinsics[0].p_bc;
         Quaternion q_wc = q_wb * q_bc;
-- 
2.43.0


From b2af28245f5f6d51f524aa56accd6b48cea36f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:05 +0000
Subject: [PATCH 19/31] fix: IsKeyFrame dereferenced null for a frame outside
 the window

---
 .../src/data_manager/vision_data/frame_manager.cpp            | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/eskf_vio_backend/src/data_manager/vision_data/frame_manager.cpp b/eskf_vio_backend/src/data_manager/vision_data/frame_manager.cpp
index cb2a539..4e5c878 100644
--- a/eskf_vio_backend/src/data_manager/vision_data/frame_manager.cpp
+++ b/eskf_vio_backend/src/data_manager/vision_data/frame_manager.cpp
@@ -173,6 +173,10 @@ namespace ESKF_VIO_BACKEND {
                 }
             }
         }
+        // 指定帧不在滑动窗口内
+        if (preFrame == nullptr) {
+            return false;
+        }
         // 找到两帧之间共视的特征点，统计点数和平均视差
         uint32_t trackedNum = 0;
         Scalar parallax = 0.0f;
-- 
2.43.0


From cb15f9816009cab06a42e2b569a2e3fd1c457011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:05 +0000
Subject: [PATCH 20/31] fix: the triangulators indexed past inputs of different
 sizes

---
 eskf_vio_backend/src/geometry/trianglation.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/geometry/trianglation.cpp b/eskf_vio_backend/src/geometry/trianglation.cpp
index 39f64af..5151d56 100644
--- a/eskf_vio_backend/src/geometry/trianglation.cpp
+++ b/eskf_vio_backend/src/geometry/trianglation.cpp
@@ -23,7 +23,7 @@ namespace ESKF_VIO_BACKEND {
                                          const std::vector<Vector2> &norm,
                                          Vector3 &p_w) {
         uint32_t num = q_wc.size();
-        if (num < 2) {
+        if (num < 2 || p_wc.size() != num || norm.size() != num) {
             return false;
         }
         this->analyticTemp.A.resize(num * 2, 4);
@@ -54,6 +54,9 @@ namespace ESKF_VIO_BACKEND {
                                           const std::vector<Vector3> &p_wc,
                                           const std::vector<Vector2> &norm,
                                           Vector3 &p_w) {
+        if (q_wc.empty() || p_wc.size() != q_wc.size() || norm.size() != q_wc.size()) {
+            return false;
+        }
         Vector3 solution(p_w(0) / p_w(2), p_w(1) / p_w(2), 1.0 / p_w(2));
         uint32_t total_poses = q_wc.size();
 
-- 
2.43.0


From e9bcdd536a961acc17ac95bfc69ddc0b10444bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 21/31] fix: triangulation indexed observations and frames that
 do not exist

---
 eskf_vio_backend/src/backend/backend_initialize.cpp      | 8 +++++++-
 eskf_vio_backend/src/update/multi_view_vision_update.cpp | 4 ++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/backend/backend_initialize.cpp b/eskf_vio_backend/src/backend/backend_initialize.cpp
index 8f0c189..f0edad7 100644
--- a/eskf_vio_backend/src/backend/backend_initialize.cpp
+++ b/eskf_vio_backend/src/backend/backend_initialize.cpp
@@ -64,7 +64,13 @@ namespace ESKF_VIO_BACKEND {
             all_p_wc.clear();
             all_norm.clear();
 
-            auto multiview = feature->observes[frame->id - feature->firstFrameID]->norms;
+            // 此特征点的追踪已经重新开始，在此帧中没有观测
+            const uint32_t idx = frame->id - feature->firstFrameID;
+            if (idx >= feature->observes.size()) {
+                feature->status = Feature::UNSOLVED;
+                continue;
+            }
+            auto multiview = feature->observes[idx]->norms;
             for (auto it = multiview.begin(); it != multiview.end(); ++it) {
                 // 没有外参的相机，其观测无法使用
                 if (it->first >= this->frameManager.extrinsics.size()) {
diff --git a/eskf_vio_backend/src/update/multi_view_vision_update.cpp b/eskf_vio_backend/src/update/multi_view_vision_update.cpp
index ee6a6c3..df2b018 100644
--- a/eskf_vio_backend/src/update/multi_view_vision_update.cpp
+++ b/eskf_vio_backend/src/update/multi_view_vision_update.cpp
@@ -122,6 +122,10 @@ namespace ESKF_VIO_BACKEND {
         for (uint32_t i = 0; i < feature->observes.size(); ++i) {
             const uint32_t frameID = i + feature->firstFrameID;
             const auto frame = this->frameManager->GetFrame(frameID);
+            if (frame == nullptr) {
+                feature->status = Feature::UNSOLVED;
+                return false;
+            }
             const Quaternion &q_wb = frame->q_wb;
             const Vector3 &p_wb = frame->p_wb;
             for (auto it = feature->observes[i]->norms.begin(); it != feature->observes[i]->norms.end(); ++it) {
-- 
2.43.0


From e258c5a011ddc83f62a51a2601971ccdb888205f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 22/31] fix: empty, repeated or interrupted observations were
 paired with the wrong frames

---
 .../data_manager/vision_data/feature_manager.cpp  | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/eskf_vio_backend/src/data_manager/vision_data/feature_manager.cpp b/eskf_vio_backend/src/data_manager/vision_data/feature_manager.cpp
index ea81d8b..5e2719e 100644
--- a/eskf_vio_backend/src/data_manager/vision_data/feature_manager.cpp
+++ b/eskf_vio_backend/src/data_manager/vision_data/feature_manager.cpp
@@ -56,8 +56,23 @@ namespace ESKF_VIO_BACKEND {
         }
         changedFeatures.reserve(ids.size());
         for (uint32_t i = 0; i < ids.size(); ++i) {
+            // 没有任何观测的特征点，不与此帧关联
+            if (newObserves[i] == nullptr || newObserves[i]->norms.empty()) {
+                continue;
+            }
             auto it = this->features.find(ids[i]);
             if (it != this->features.end()) {
+                // 同一帧内重复的特征点，仅保留首个观测
+                if (it->second->FinalFrameID() == frameID) {
+                    continue;
+                }
+                // 追踪中断过的特征点，观测无法和连续的帧对应，需要重新开始追踪
+                if (it->second->FinalFrameID() + 1 != frameID) {
+                    it->second->firstFrameID = frameID;
+                    it->second->observes.clear();
+                    it->second->observeNum = 0;
+                    it->second->status = Feature::UNSOLVED;
+                }
                 // 对应特征点已经存在时，直接添加观测
                 it->second->AddNewObserve(newObserves[i]);
                 changedFeatures.emplace_back(it->second);
-- 
2.43.0


From 51705bc4b9c4e0b00e7aa5ce181a77ed447d0b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:40 +0000
Subject: [PATCH 23/31] fix: the mean parallax threshold of the keyframe policy
 was never consulted

---
 .../src/data_manager/vision_data/frame_manager.cpp             | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eskf_vio_backend/src/data_manager/vision_data/frame_manager.cpp b/eskf_vio_backend/src/data_manager/vision_data/frame_manager.cpp
index 4e5c878..c808fd2 100644
--- a/eskf_vio_backend/src/data_manager/vision_data/frame_manager.cpp
+++ b/eskf_vio_backend/src/data_manager/vision_data/frame_manager.cpp
@@ -200,6 +200,9 @@ namespace ESKF_VIO_BACKEND {
         if (trackedNum < this->minKeyframeTrackedFeatureNum) {
             return true;
         }
+        if (parallax > this->minKeyframeMeanParallax) {
+            return true;
+        }
         if (translation > this->maxKeyframeTranslation) {
             return true;
         }
-- 
2.43.0


From f54668c25dd6dfdecad5fd752b1718c4a6390b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:52 +0000
Subject: [PATCH 24/31] fix: a lookup in a single attitude after the requested
 time always failed

---
 eskf_vio_backend/src/propagate/attitude_estimate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/propagate/attitude_estimate.cpp b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
index cf6b1ed..1d42b2f 100644
--- a/eskf_vio_backend/src/propagate/attitude_estimate.cpp
+++ b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
@@ -73,7 +73,7 @@ namespace ESKF_VIO_BACKEND {
         }
 
         // 最小的时间戳也大于目标时间戳
-        if (this->items.size() > 1 && this->items.front()->timeStamp >= timeStamp) {
+        if (this->items.front()->timeStamp >= timeStamp) {
             if (this->items.front()->timeStamp - timeStamp < threshold) {
                 atti = this->items.front()->q_wb;
                 return true;
-- 
2.43.0


From 99cec31ea7373f258c727aab7b93f826fa5a679f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 25/31] fix: an accelerometer sample of zero length made every
 later attitude NaN

---
 eskf_vio_backend/src/propagate/attitude_estimate.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/propagate/attitude_estimate.cpp b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
index 1d42b2f..dcfc603 100644
--- a/eskf_vio_backend/src/propagate/attitude_estimate.cpp
+++ b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
@@ -41,7 +41,8 @@ namespace ESKF_VIO_BACKEND {
             item_1->timeStamp = timeStamp;
             
             // 利用加速度观测，修正角速度中值
-            Vector3 acc_b_measure = accel / accel.norm();
+            // accel 模长为零时没有方向信息，不进行修正
+            Vector3 acc_b_measure = accel.norm() > ZERO ? Vector3(accel / accel.norm()) : Vector3(Vector3::Zero());
             Vector3 acc_b_target = item_0->q_wb.inverse() * IMUFullState::gravity_w / IMUFullState::gravity_w.norm();
             Vector3 err = acc_b_measure.cross(acc_b_target);
             Vector3 gyrMid = Scalar(0.5) * (item_0->gyro + item_1->gyro) - this->bias_g;
-- 
2.43.0


From 0e31c4208f51930c68980fb09d230d282c27a76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 26/31] fix: the configured initial biases never reached the
 attitude estimator

---
 eskf_vio_backend/src/backend/backend_config.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eskf_vio_backend/src/backend/backend_config.cpp b/eskf_vio_backend/src/backend/backend_config.cpp
index eff0d7e..ad6d4d8 100644
--- a/eskf_vio_backend/src/backend/backend_config.cpp
+++ b/eskf_vio_backend/src/backend/backend_config.cpp
@@ -19,6 +19,7 @@ namespace ESKF_VIO_BACKEND {
                                                       this->config->imu.sigmaBiasGyroRandomWalk);
         this->propagator.bias_a = this->config->imu.defaultBiasAccel;
         this->propagator.bias_g = this->config->imu.defaultBiasGyro;
+        this->attitudeEstimator.SetBias(this->config->imu.defaultBiasAccel, this->config->imu.defaultBiasGyro);
         IMUFullState::gravity_w << 0.0, 0.0, this->config->imu.gravityNorm;
 
         this->frameManager.extrinsics.clear();
-- 
2.43.0


From faf92ed189a4debcf202cabe6894e73b93b6048f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 27/31] fix: printing a message dereferenced missing
 observations and samples

---
 eskf_vio_backend/src/data_manager/data_typedef.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/data_manager/data_typedef.cpp b/eskf_vio_backend/src/data_manager/data_typedef.cpp
index 6796ab7..9ffece3 100644
--- a/eskf_vio_backend/src/data_manager/data_typedef.cpp
+++ b/eskf_vio_backend/src/data_manager/data_typedef.cpp
@@ -49,6 +49,9 @@ namespace ESKF_VIO_BACKEND {
         LogInfo(">> Features Message at time stamp " << this->timeStamp << "s:");
         for (uint32_t i = 0; i < this->ids.size(); ++i) {
             LogInfo("     feature id " << this->ids[i] << " is observed in:");
+            if (i >= this->observes.size() || this->observes[i] == nullptr) {
+                continue;
+            }
             for (auto it = this->observes[i]->norms.begin(); it != this->observes[i]->norms.end(); ++it) {
                 LogInfo("       camera id " << it->first << " [" << it->second.transpose() << "]");
             }
@@ -96,7 +99,9 @@ namespace ESKF_VIO_BACKEND {
             this->featMeas->Information();
         }
         for (uint32_t i = 0; i < this->imuMeas.size(); ++i) {
-            this->imuMeas[i]->Information();
+            if (this->imuMeas[i] != nullptr) {
+                this->imuMeas[i]->Information();
+            }
         }
     }
 }
\ No newline at end of file
-- 
2.43.0


From 08544a95cfe127d77ea36d655dfeca6793b36798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 28/31] fix: analytic triangulation of non-finite input
 succeeded with an undefined point, and of points at a camera centre

---
 eskf_vio_backend/src/geometry/trianglation.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/geometry/trianglation.cpp b/eskf_vio_backend/src/geometry/trianglation.cpp
index 5151d56..9fbfb5b 100644
--- a/eskf_vio_backend/src/geometry/trianglation.cpp
+++ b/eskf_vio_backend/src/geometry/trianglation.cpp
@@ -32,6 +32,10 @@ namespace ESKF_VIO_BACKEND {
             this->analyticTemp.A.row(2 * i) = norm[i][0] * pose.row(2) - pose.row(0);
             this->analyticTemp.A.row(2 * i + 1) = norm[i][1] * pose.row(2) - pose.row(1);
         }
+        // 非有限的方程无法分解，此时 matrixV 未定义
+        if (this->analyticTemp.A.allFinite() == false) {
+            return false;
+        }
         Vector4 x = this->analyticTemp.A.jacobiSvd(Eigen::ComputeFullV).matrixV().rightCols<1>();
 
         // 检查计算结果是否正确
@@ -41,7 +45,7 @@ namespace ESKF_VIO_BACKEND {
         p_w = x.head<3>() / x(3);
         for (uint32_t i = 0; i < q_wc.size(); ++i) {
             Vector3 p_c = q_wc[i].inverse() * (p_w - p_wc[i]);
-            if (p_c.z() < 0) {
+            if (!(p_c.z() > 0)) {
                 return false;
             }
         }
-- 
2.43.0


From 99a0d191902b8c7eea16c68b253b5aee47f916ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 29/31] fix: an overflowing pose correction was applied and
 reported as success

---
 eskf_vio_backend/src/geometry/perspective_n_point.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eskf_vio_backend/src/geometry/perspective_n_point.cpp b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
index 217201e..4f01f10 100644
--- a/eskf_vio_backend/src/geometry/perspective_n_point.cpp
+++ b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
@@ -51,7 +51,7 @@ namespace ESKF_VIO_BACKEND {
             // 求解高斯牛顿增量方程
             dx = H.ldlt().solve(b);
             Scalar norm_dx = dx.norm();
-            if (std::isnan(norm_dx) == true) {
+            if (std::isfinite(norm_dx) == false) {
                 return false;
             }
 
@@ -215,7 +215,7 @@ namespace ESKF_VIO_BACKEND {
             // 求解高斯牛顿增量方程
             dx = H.ldlt().solve(b);
             Scalar norm_dx = dx.norm();
-            if (std::isnan(norm_dx) == true) {
+            if (std::isfinite(norm_dx) == false) {
                 return false;
             }
 
-- 
2.43.0


From 9804105a3ca625a15dded77099339ed04b6edd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 30/31] fix: iterative triangulation returned NaN for a start
 without depth

---
 eskf_vio_backend/src/geometry/trianglation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/eskf_vio_backend/src/geometry/trianglation.cpp b/eskf_vio_backend/src/geometry/trianglation.cpp
index 9fbfb5b..b35d3e1 100644
--- a/eskf_vio_backend/src/geometry/trianglation.cpp
+++ b/eskf_vio_backend/src/geometry/trianglation.cpp
@@ -61,6 +61,10 @@ namespace ESKF_VIO_BACKEND {
         if (q_wc.empty() || p_wc.size() != q_wc.size() || norm.size() != q_wc.size()) {
             return false;
         }
+        // 逆深度参数化无法表示深度为零的初值
+        if (std::fabs(p_w(2)) < ZERO) {
+            return false;
+        }
         Vector3 solution(p_w(0) / p_w(2), p_w(1) / p_w(2), 1.0 / p_w(2));
         uint32_t total_poses = q_wc.size();
 
-- 
2.43.0


From bb8070c2dee1c5811d7e258452f3dff63892e971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:23 +0000
Subject: [PATCH 31/31] fix: count the measurements of every observation a
 feature is constructed from

---
 .../include/data_manager/vision_data/feature_manager.hpp     | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/eskf_vio_backend/include/data_manager/vision_data/feature_manager.hpp b/eskf_vio_backend/include/data_manager/vision_data/feature_manager.hpp
index cd79f5e..56fa57f 100644
--- a/eskf_vio_backend/include/data_manager/vision_data/feature_manager.hpp
+++ b/eskf_vio_backend/include/data_manager/vision_data/feature_manager.hpp
@@ -30,7 +30,10 @@ namespace ESKF_VIO_BACKEND {
                 const uint32_t firstFrameID,
                 const std::vector<std::shared_ptr<FeatureObserve>> &observes) :
             id(id), firstFrameID(firstFrameID), observes(observes) {
-            this->observeNum = observes.front()->norms.size();
+            this->observeNum = 0;
+            for (const auto &observe : observes) {
+                this->observeNum += observe->norms.size();
+            }
         }
         virtual ~Feature() = default;
     public:
-- 
2.43.0

