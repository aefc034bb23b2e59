From 9bbd3dd80b5f2a63425bc374f6c335d5edd3d7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:58 +0000
Subject: [PATCH 01/37] fix: rect::inflated grows the maximum corner too

---
 src/include/rmath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/rmath.h b/src/include/rmath.h
index d90cf17..13cb908 100644
--- a/src/include/rmath.h
+++ b/src/include/rmath.h
@@ -74,7 +74,7 @@ namespace rmath
     num height() const { return max.y - min.y; }
     point_type center() const { return (max + min) / 2; }
 
-    rect inflated(const num& n) const { return rect(min - n, min + n); }
+    rect inflated(const num& n) const { return rect(min - n, max + n); }
 
     static rect from(std::initializer_list<point_type> _Ilist)
     {
-- 
2.43.0


From cddee1e5e385ab3e53e4ac8c8546fd9e8403126a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:58 +0000
Subject: [PATCH 02/37] fix: clamp_0_2pi never returns 2pi

---
 src/src/rmath.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 3d2ce07..ca6acea 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -9,7 +9,9 @@ namespace rmath
 
   double clamp_0_2pi(double rad) {
     rad = remainder(rad, pi * 2);
-    return std::signbit(rad) ? rad + pi * 2 : rad;
+    if (rad < 0) rad += pi * 2;
+    // 非常接近 0 的负数加上 2pi 后会等于 2pi
+    return rad < pi * 2 ? rad : 0;
   }
 
   bool rect::intersect(const rect& r) const
-- 
2.43.0


From 890eae726329a2ed4e6461a1041a6f6f20e3a305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:58 +0000
Subject: [PATCH 03/37] fix: dist2_point_line measures to the infinite line

---
 src/src/rmath.cpp | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index ca6acea..d9cf786 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -56,23 +56,13 @@ namespace rmath
 
   vec2 operator*(double sc, const vec2& v) { return v * sc; }
   double dist2_point_line(const vec2& p, const vec2& l0, const vec2& l1) {
-    vec2 AC, D;
-    AC = p - l0;
-    vec2 AB = l1 - l0;
-    double f = 0, d = AB.dist2(), res;
-    f = AB.dot(AC);
-    if (f < 0)
-      res = AC.dist2();
-    else if (f > d)
-      res = (p - l1).dist2();
-    else
-    {
-      f = f / d;
-      D = l0 + AB * f;
-      res = (p - D).dist2();
-    }
+    const vec2 AB = l1 - l0;
+    const vec2 AC = p - l0;
+    const double d = AB.dist2();
+    if (d == 0) return AC.dist2();
 
-    return res;
+    const double c = AB.cross(AC);
+    return c * c / d;
   }
 
   // 计算点投影到（有限长）线段的点是否位于线段内
-- 
2.43.0


From 0b20481bfbb8a1d90999d5a1d5eb0fca4a2e349d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:58 +0000
Subject: [PATCH 04/37] fix: point_project_in_segment rejects points before the
 start

---
 src/src/rmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index d9cf786..2dec1ae 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -76,7 +76,7 @@ namespace rmath
     vec2 u = p - p0;
 
     double sc = v.dot(u) / v.dot(v);
-    return sc <= 1;
+    return 0 <= sc && sc <= 1;
   }
 
   bool point_between_two_point(const vec2& p, const vec2& p0, const vec2& p1)
-- 
2.43.0


From 7d49f32ae4f67c472ccb5880ef0ecb6a91a5bc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:58 +0000
Subject: [PATCH 05/37] fix: arc end angle is measured at the centre and
 reverse() negates the sweep

---
 src/src/rmath.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 2dec1ae..776363b 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -251,7 +251,7 @@ namespace rmath
     double end_rad = _start_rad + sweep_rad();
     p1 = vec2(cos(end_rad), sin(end_rad));
     p1 = center() + p1 * _radius;
-    _end_rad = clamp_0_2pi(atan2(p1.y, p1.x));
+    _end_rad = clamp_0_2pi(end_rad);
   }
 
   const vec2& arc::start() const{
@@ -286,6 +286,7 @@ namespace rmath
     arc r = *this;
     std::swap(r.p0, r.p1);
     std::swap(r._start_rad, r._end_rad);
+    r._sweep_rad = -r._sweep_rad;
 
     return r;
   }
-- 
2.43.0


From 6526ec55948495d78e7ab30b426f06153cb500ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:58 +0000
Subject: [PATCH 06/37] fix: line/line intersection tolerates rounding and
 degenerate collinear input

---
 src/src/rmath.cpp | 79 ++++++++++++++++++++---------------------------
 1 file changed, 33 insertions(+), 46 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 776363b..6a5e2ae 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -96,65 +96,52 @@ namespace rmath
     const vec2 b = p2 - p3;
     const vec2 c = p0 - p2;
 
+    // 容许的计算误差
+    constexpr double t_err = 1e-12;
     const double denominator = a.y * b.x - a.x * b.y;
-    if (denominator == 0 || !std::isfinite(denominator))
+    if (std::abs(denominator) <= t_err * a.dist() * b.dist() || !std::isfinite(denominator))
     {
       // 此时平行
-      if (dist2_point_line(p0, p2, p3) == 0)
+      if (dist2_point_line(p0, p2, p3) <= t_err * t_err * (a.dist2() + b.dist2() + c.dist2()))
       {
-        // 此时共线
-        if (p0 != p2 && p0 != p3 && point_between_two_point(p0, p2, p3)) {
-          // p0 在 r 内
-          auto& data = res.data[res.count];
-          data.p = p0;
-          data.t0 = 0;
-          if (b.y == 0) data.t1 = (p0 - p2).x / -b.x;
-          else data.t1 = (p0 - p2).y / -b.y;
-          res.count++;
-        }
-        if (p1 != p2 && p1 != p3 && point_between_two_point(p1, p2, p3)) {
-          // p1 在 r 内
-          auto& data = res.data[res.count];
-          data.p = p1;
-          data.t0 = 1;
-          if (b.y == 0) data.t1 = (p1 - p2).x / -b.x;
-          else data.t1 = (p1 - p2).y / -b.y;
-          res.count++;
-        }
-
-        if (p2 != p0 && p2 != p1 && point_between_two_point(p2, p0, p1)) {
-          // p2 在 l 内
-          auto& data = res.data[res.count];
-          data.p = p2;
-          data.t1 = 0;
-          if (a.y == 0) data.t0 = (p2 - p0).x / a.x;
-          else data.t0 = (p2 - p0).y / a.y;
-          res.count++;
-        }
-        if (p3 != p0 && p3 != p1 && point_between_two_point(p3, p0, p1)) {
-          // p3 在 l 内
-          auto& data = res.data[res.count];
-          data.p = p3;
-          data.t1 = 1;
-          if (a.y == 0) data.t0 = (p3 - p0).x / a.x;
-          else data.t0 = (p3 - p0).y / a.y;
-          res.count++;
-        }
+        // 此时共线，在跨度最大的轴上比较，严格位于对方内部的端点最多有 2 个
+        const rect r = rect::from({ p0, p1, p2, p3 });
+        const auto axis = r.width() < r.height() ? &vec2::y : &vec2::x;
+        const auto add_inside = [&](const vec2& p, const vec2& q0, const vec2& q1,
+          double intersect_info::* t_self, double t, double intersect_info::* t_other) {
+            const double v = (p.*axis - q0.*axis) / (q1.*axis - q0.*axis);
+            if (0 < v && v < 1) {
+              auto& data = res.data[res.count];
+              data.p = p;
+              data.*t_self = t;
+              data.*t_other = v;
+              res.count++;
+            }
+        };
+
+        add_inside(p0, p2, p3, &intersect_info::t0, 0, &intersect_info::t1);
+        add_inside(p1, p2, p3, &intersect_info::t0, 1, &intersect_info::t1);
+        add_inside(p2, p0, p1, &intersect_info::t1, 0, &intersect_info::t0);
+        add_inside(p3, p0, p1, &intersect_info::t1, 1, &intersect_info::t0);
       }
 
       return res;
     }
 
-    const double reciprocal = 1 / denominator;
-    const double na = (b.y * c.x - b.x * c.y) * reciprocal;
-    const double nb = (a.x * c.y - a.y * c.x) * reciprocal;
+    const double na = (b.y * c.x - b.x * c.y) / denominator;
+    const double nb = (a.x * c.y - a.y * c.x) / denominator;
 
-    const bool in_l = 0 <= na && na <= 1;
-    const bool in_r = 0 <= nb && nb <= 1;
+    const bool in_l = -t_err <= na && na <= 1 + t_err;
+    const bool in_r = -t_err <= nb && nb <= 1 + t_err;
 
     if (in_l && in_r) {
       res.count = 1;
-      res.data[0].p = (p0 + a * na);
+      // 交点位于端点时直接使用端点，避免计算误差
+      if (std::abs(na) <= t_err) res.data[0].p = p0;
+      else if (std::abs(na - 1) <= t_err) res.data[0].p = p1;
+      else if (std::abs(nb) <= t_err) res.data[0].p = p2;
+      else if (std::abs(nb - 1) <= t_err) res.data[0].p = p3;
+      else res.data[0].p = (p0 + a * na);
       res.data[0].t0 = na;
       res.data[0].t1 = nb;
     }
-- 
2.43.0


From 02177da4fcf526215ea3036b987bd90282de66d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:59 +0000
Subject: [PATCH 07/37] fix: split_y returns its parameters in ascending order

---
 src/src/rmath.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 6a5e2ae..24e2e35 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -420,7 +420,10 @@ namespace rmath
       switch (res.size())
       {
       case 1: *t1 = res[0]; return 1;
-      case 2: *t1 = res[0]; *t2 = res[1]; return 2;
+      case 2:
+        *t1 = (std::min)(res[0], res[1]);
+        *t2 = (std::max)(res[0], res[1]);
+        return 2;
       default: return 0;
       }
     }
-- 
2.43.0


From a753888f54785546fb74034887967f17d107f4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:59 +0000
Subject: [PATCH 08/37] fix: quadratic and cubic solvers judge the discriminant
 by relative error and polish the roots

---
 src/src/rmath.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 24e2e35..e5f6cb0 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -643,7 +643,8 @@ namespace rmath
     }
 
     double k = b * b - 4 * a * c;
-    if (is_zero(k))
+    // k 的量级随系数变化，只能按相对误差判断是否为 0
+    if (std::abs(k) <= 1e-13 * (b * b + std::abs(4 * a * c)))
     {
       res.count = 1;
       res.data[0] = -b / (2 * a);
@@ -739,8 +740,11 @@ namespace rmath
     //      y3 = v1·ϵ^2 + w1·ϵ
 
 
-    double k = std::pow(q / 2, 2) + std::pow(p / 3, 3);
-    if (is_zero(k))
+    const double q2 = std::pow(q / 2, 2);
+    const double p3 = std::pow(p / 3, 3);
+    double k = q2 + p3;
+    // k 的量级随系数变化，只能按相对误差判断是否为 0
+    if (std::abs(k) <= 1e-13 * (q2 + std::abs(p3)))
     {
       //此时v1, w1均为实数
       //观察有ϵ和ϵ^2为共轭复数
@@ -773,7 +777,8 @@ namespace rmath
       //此时v1, w1均为实数
       //只有一个实数解则只能是y1 = v1 + w1
       double sqrtk = std::sqrt(k);
-      double v1 = std::cbrt(-q / 2 + sqrtk);
+      //v1 取绝对值较大的那个，避免 p 为 0 时 v1 也为 0
+      double v1 = std::cbrt(q > 0 ? -q / 2 - sqrtk : -q / 2 + sqrtk);
       double w1 = -p / (3 * v1);
 
       res.count = 1;
@@ -796,7 +801,6 @@ namespace rmath
 
       double r = std::sqrt(q * q / 4 - k);
       double AAA = 2 * std::cbrt(r);
-      constexpr double pi = 3.1415926535;
 
       res.count = 3;
       res.data[0] = minus * AAA * std::cos(phi / 3) - a / 3;
@@ -804,6 +808,17 @@ namespace rmath
       res.data[2] = minus * AAA * std::cos((phi + 4 * pi) / 3) - a / 3;
     }
 
+    // 用牛顿法消除上面计算中累积的误差
+    for (int i = 0; i < res.count; ++i) {
+      const auto f = [&](double x) { return ((x + a) * x + b) * x + c; };
+      for (int n = 0; n < 4; ++n) {
+        const double x = res.data[i];
+        const double next = x - f(x) / ((3 * x + 2 * a) * x + b);
+        if (!(std::abs(f(next)) < std::abs(f(x)))) break;
+        res.data[i] = next;
+      }
+    }
+
     return res;
   }
 
-- 
2.43.0


From 7d41f5cdbdcd820d0157251df271ac9f0fbef6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:59 +0000
Subject: [PATCH 09/37] fix: line/cubic intersection keeps intersections at the
 end points

---
 src/src/rmath.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index e5f6cb0..618d6b9 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -177,12 +177,19 @@ namespace rmath
     const double a0 = A * t0.x + B * t0.y + C;
 
     auto l = segment.p1 - segment.p0;
+    const rect bound = rect::from({ segment.p0, segment.p1, p0, p1, p2, p3 });
+    const double p_err = 1e-12 * (bound.width() + bound.height());
     auto cubic_res = resolv_cubic_equa(a3, a2, a1, a0);
     for (auto i = 0; i < cubic_res.count; ++i) {
       auto t = cubic_res.data[i];
-      if (0 <= t && t <= 1) {
-        // ToDo 由于计算精度的问题，这里应该很难算出同一个点，特别实在交点靠近任意一方的端点时
+      if (-1e-9 <= t && t <= 1 + 1e-9) {
         auto p = curve.point_at(t);
+        // 由于计算精度的问题，很难算出同一个点，交点靠近任意一方的端点时直接使用端点
+        if (segment.p0.y == segment.p1.y) p.y = segment.p0.y;
+        if (segment.p0.x == segment.p1.x) p.x = segment.p0.x;
+        for (auto end : { segment.p0, segment.p1, p0, p3 }) {
+          if ((p - end).dist() <= p_err) p = end;
+        }
         if (point_between_two_point(p, segment.p0, segment.p1)) {
           auto& data = res.data[res.count];
           data.p = p;
-- 
2.43.0


From 3f52faa06a691fa0ef1eb35bb770b8e5ea67c668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:59 +0000
Subject: [PATCH 10/37] fix: cubic/cubic intersection terminates for coincident
 and tangent curves and keeps end point contacts

---
 src/src/rmath.cpp | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 618d6b9..ab033a2 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -869,23 +869,42 @@ namespace rmath
     typedef std::pair<data, data> data_pair;
     std::vector<data_pair> pairs;
     std::vector<data_pair> intersect_pair;
+    constexpr double near_t = 1e-6;
+    constexpr size_t max_pair = 64;
+
+    // 完全重合的曲线没有可以打断的交点
+    if ((b1.p0 == b2.p0 && b1.p1 == b2.p1 && b1.p2 == b2.p2 && b1.p3 == b2.p3)
+      || (b1.p0 == b2.p3 && b1.p1 == b2.p2 && b1.p2 == b2.p1 && b1.p3 == b2.p0))
+      return res;
 
     data p1{ b1,rough_rect(b1),0,1,0 };
     data p2{ b2,rough_rect(b2),0,1,0 };
-    if (!p1.bbox.intersect(p2.bbox)) return res;
+    // 容许的计算误差，避免丢失位于端点上的交点
+    const double bbox_err = 1e-13 * (p1.bbox.width() + p1.bbox.height() + p2.bbox.width() + p2.bbox.height());
+    if (!p1.bbox.inflated(bbox_err).intersect(p2.bbox)) return res;
 
     pairs.push_back(data_pair(p1, p2));
     while (!pairs.empty()) {
       auto back = pairs.back();
       pairs.pop_back();
 
+      // 相切时会有大量紧挨着的结果，它们最终会合并，不需要再细分
+      const bool is_near = std::any_of(intersect_pair.rbegin(), intersect_pair.rend(),
+        [&](const data_pair& p) {
+          return std::abs(p.first.t0 - back.first.t0) < near_t && std::abs(p.first.t1 - back.first.t1) < near_t
+            && std::abs(p.second.t0 - back.second.t0) < near_t && std::abs(p.second.t1 - back.second.t1) < near_t;
+        });
+      if (is_near) continue;
+      // 不相同的三次曲线最多 9 个交点，结果过多意味着有重合的部分
+      if (intersect_pair.size() > max_pair) break;
+
       data p11, p12, p21, p22;
       back.first.subdive(p11, p12);
       back.second.subdive(p21, p22);
 
-      constexpr auto check_func = [](const data& p0, const data& p1, int precise,
+      const auto check_func = [bbox_err](const data& p0, const data& p1, int precise,
         decltype(pairs)& next_out, decltype(intersect_pair)& intersect_out) {
-          if (p0.bbox.intersect(p1.bbox)) {
+          if (p0.bbox.inflated(bbox_err).intersect(p1.bbox)) {
             if (p0.recurse > precise)
               intersect_out.push_back(data_pair(p0, p1));
             else
@@ -903,11 +922,15 @@ namespace rmath
       [](const data_pair& l, const data_pair& r) {
         return l.first.t0 < r.first.t0;
       });
-    // 移除太过相似的结果
-    intersect_pair.erase(std::unique(intersect_pair.begin(), intersect_pair.end(),
-      [](const data_pair& l, const data_pair& r) ->bool {
-        return (std::abs)(l.first.t0 - r.first.t0) < 1e-8;
-      }), intersect_pair.end());
+    // 合并太过相似的结果，连成一片的结果只取中间的
+    auto keep = intersect_pair.begin();
+    for (auto it = intersect_pair.begin(); it != intersect_pair.end();) {
+      auto end = std::next(it);
+      while (end != intersect_pair.end() && end->first.t0 - std::prev(end)->first.t0 < near_t * 4) ++end;
+      *keep++ = *(it + (end - it - 1) / 2);
+      it = end;
+    }
+    intersect_pair.erase(keep, intersect_pair.end());
 
     // ToDo 不能检查部分重合的情况
     for (int i = 0; i < intersect_pair.size(); ++i) {
-- 
2.43.0


From 330b4bafc8916ca74320bc20b48a66417c3a223f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:59 +0000
Subject: [PATCH 11/37] fix: scan_line frees its segments and points

---
 src/src/scan_line.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/src/scan_line.h b/src/src/scan_line.h
index 113b16c..f3be4ab 100644
--- a/src/src/scan_line.h
+++ b/src/src/scan_line.h
@@ -72,6 +72,14 @@ namespace scan_line
       };
     };
 
+    scan_line() = default;
+    scan_line(const scan_line&) = delete;
+    scan_line& operator=(const scan_line&) = delete;
+    ~scan_line() {
+      for (auto p : scan_points) delete p;
+      for (auto s : segments) delete s;
+    }
+
     void add_segment(const segment& in);
     void process(void* user);
 
-- 
2.43.0


From b81c570e9b62238971f24c47273d6fb0f6899b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:59 +0000
Subject: [PATCH 12/37] fix: curr_x of a segment does not depend on its
 direction

---
 src/src/segment.cpp | 22 ++++++++++++++--------
 src/src/segment.h   |  5 ++++-
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/src/segment.cpp b/src/src/segment.cpp
index 8107b02..3f0afcd 100644
--- a/src/src/segment.cpp
+++ b/src/src/segment.cpp
@@ -39,16 +39,22 @@ namespace river {
 
   double seg_cubicto::curr_x(const point& from, double y) const
   {
-    auto cubic = get_cubic(from);
-    auto res = cubic.point_at_y(y);
-    if (res.count == 1) {
-      return cubic.point_at(res.t[0]).x;
+    // 此时曲线在 y 轴上单调，总是从下往上二分，使得重合但方向相反的曲线结果一致
+    const bool up = from.y < target.y;
+    const rmath::bezier_cubic cubic = up ? get_cubic(from)
+      : rmath::bezier_cubic{ target, ctrl2, ctrl1, from };
+    if (y <= cubic.p0.y) return cubic.p0.x;
+    if (y >= cubic.p3.y) return cubic.p3.x;
+
+    double l = 0, r = 1;
+    for (int i = 0; i < 64; ++i) {
+      const double mid = (l + r) / 2;
+      if (cubic.point_at(mid).y < y) l = mid;
+      else r = mid;
     }
-    else {
-      return (target.x - from.x) * (y - from.y) / (target.y - from.y) + from.x;
-    }
-
+    return cubic.point_at((l + r) / 2).x;
   }
 
 
+
 }
\ No newline at end of file
diff --git a/src/src/segment.h b/src/src/segment.h
index b0597f7..f1c5fbb 100644
--- a/src/src/segment.h
+++ b/src/src/segment.h
@@ -73,7 +73,10 @@ namespace river {
       target = from;
     }
     virtual double curr_x(const point& from, double y) const override {
-      return (target.x - from.x) * (y - from.y) / (target.y - from.y) + from.x;
+      // 总是从下往上计算，使得重合但方向相反的线段结果一致
+      const point& bot = from.y < target.y ? from : target;
+      const point& top = from.y < target.y ? target : from;
+      return (top.x - bot.x) * (y - bot.y) / (top.y - bot.y) + bot.x;
     }
   };
 
-- 
2.43.0


From 7aaa9f9030748500cb7f0f142cb398a7a2d252c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:59 +0000
Subject: [PATCH 13/37] fix: collinear cubics are clipped as lines

---
 src/src/vatti.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 79188aa..41c94ff 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -269,6 +269,15 @@ namespace vatti
     }
     bezier_cubic tmp[3];
     b.split(recheck_t.data(), tmp, recheck_t.size());
+
+    // 控制点全部共线时视为（来回折返的）直线，否则重合的部分不能正确求交
+    const auto on_line = [&](const point& l, const point& r) { return (l - from).cross(r - from) == 0; };
+    if (on_line(ctrl1, ctrl2) && on_line(ctrl1, to) && on_line(ctrl2, to)) {
+      for (size_t i = 0; i < recheck_t.size(); ++i) read_lineto(tmp[i].p0, tmp[i].p3, user);
+      read_lineto(recheck_t.empty() ? from : tmp[recheck_t.size()].p0, to, user);
+      return;
+    }
+
     switch (recheck_t.size())
     {
     case 2:
-- 
2.43.0


From e3f082d5b549ec3690b8358df5469cd975a6d378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:59 +0000
Subject: [PATCH 14/37] fix: paths without a leading moveto start at the
 current point

---
 src/src/river.cpp | 6 +++++-
 src/src/vatti.cpp | 5 +++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/src/river.cpp b/src/src/river.cpp
index b71edd9..3870984 100644
--- a/src/src/river.cpp
+++ b/src/src/river.cpp
@@ -31,7 +31,11 @@ namespace river
     struct writer
     {
       paths* _path;
-      path& back() const { return _path->back(); }
+      path& back() const {
+        // 没有 moveto 时从原点开始
+        if (_path->empty()) _path->push_back(path());
+        return _path->back();
+      }
 
       void moveto(point const& p) const { _path->push_back(path()); back().moveto(p); }
       void lineto(const point& p) const { back().lineto(p); }
diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 41c94ff..75a488e 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -231,6 +231,8 @@ namespace vatti
 
   void read_lineto(path_lineto_func_para) {
     auto data = (process_path_data*)(user);
+    // 没有 moveto 时从当前点开始
+    if (!data->first) read_moveto(from, from, user);
 
     if (from != to) {
       data->new_cur_vertex();
@@ -251,6 +253,9 @@ namespace vatti
     auto& cur = data->cur;
     auto& clipper = data->clipper;
 
+    // 没有 moveto 时从当前点开始
+    if (!data->first) read_moveto(from, from, user);
+
     bezier_cubic b{from, ctrl1, ctrl2, to};
 
     // 水平状态下视为直线
-- 
2.43.0


From 573083f8c4cd3d8e0fa389e0fb470e1e09b10f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:59 +0000
Subject: [PATCH 15/37] fix: a processor can be used again after process()

---
 src/src/vatti.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 75a488e..4529157 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -366,6 +366,8 @@ namespace vatti
     cur_locmin_it = local_minima_list.begin();
     ael_first = nullptr;
     obl_first = nullptr;
+    windcnt_change_list.clear();
+    output_list.clear();
   }
 
   void clipper::add_path(const paths& paths, path_type polytype, bool is_open)
-- 
2.43.0


From fd1a06877b6826d1981c746c36fd549df4266c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:59 +0000
Subject: [PATCH 16/37] fix: equal intersections found by different segment
 pairs are merged

---
 src/src/vatti.cpp | 59 ++++++++++++++++++++++++++++++++++++++++++++++-
 src/src/vatti.h   |  1 +
 2 files changed, 59 insertions(+), 1 deletion(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 4529157..4dba6fa 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -609,12 +609,16 @@ namespace vatti
     }
 #endif
 
+    merge_break_point();
     std::sort(break_info_list.begin(), break_info_list.end(),
       [](break_info const& l, break_info const& r) {
         if (l.vert != r.vert) return l.vert < r.vert;
     return l.t < r.t;
       });
-    break_info_list.erase(std::unique(break_info_list.begin(), break_info_list.end()), break_info_list.end());
+    break_info_list.erase(std::unique(break_info_list.begin(), break_info_list.end(),
+      [](break_info const& l, break_info const& r) {
+        return l.vert == r.vert && l.break_point == r.break_point;
+      }), break_info_list.end());
 
     auto start = break_info_list.begin();
     auto end = start;
@@ -718,6 +722,59 @@ namespace vatti
 #endif
   }
 
+  // 同一个交点（或同一高度的交点）由不同的线段对求得时会有微小的差异，需要统一，
+  // 否则扫描过程中会出现极扁的扫描带，重合的线段也不再重合
+  void clipper::merge_break_point()
+  {
+    constexpr num merge_err = 1e-9;
+
+    std::vector<point> vertices;
+    for (auto& start : paths_start) {
+      auto cur = start;
+      do {
+        vertices.push_back(cur->pt);
+        cur = cur->next;
+      } while (cur != start);
+    }
+
+    // 优先使用已有的顶点
+    std::sort(vertices.begin(), vertices.end(),
+      [](const point& l, const point& r) { return l.x < r.x; });
+    std::vector<break_info*> free_list;
+    for (auto& info : break_info_list) {
+      auto& p = info.break_point;
+      auto it = std::lower_bound(vertices.begin(), vertices.end(), p.x - merge_err,
+        [](const point& l, num x) { return l.x < x; });
+      while (it != vertices.end() && it->x - p.x < merge_err
+        && std::abs(it->y - p.y) >= merge_err) ++it;
+      if (it != vertices.end() && it->x - p.x < merge_err) p = *it;
+      else free_list.push_back(&info);
+    }
+
+    for (auto axis : { &point::x, &point::y }) {
+      std::vector<num> nodes;
+      for (auto& v : vertices) nodes.push_back(v.*axis);
+      std::sort(nodes.begin(), nodes.end());
+
+      std::vector<num*> values;
+      for (auto info : free_list) values.push_back(&(info->break_point.*axis));
+      std::sort(values.begin(), values.end(), [](num* l, num* r) { return *l < *r; });
+
+      num last = num_min;
+      for (auto v : values) {
+        auto node = std::lower_bound(nodes.begin(), nodes.end(), *v - merge_err);
+        if (node != nodes.end() && *node - *v < merge_err) *v = *node;
+        else if (*v - last < merge_err) *v = last;
+        last = *v;
+      }
+    }
+
+    break_info_list.erase(std::remove_if(break_info_list.begin(), break_info_list.end(),
+      [](const break_info& b) {
+        return b.break_point == b.vert->pt || b.break_point == b.vert->next->pt;
+      }), break_info_list.end());
+  }
+
   bool clipper::pop_scanline(num old_y, num& new_y)
   {
     if (scanline_list.empty()) return false;
diff --git a/src/src/vatti.h b/src/src/vatti.h
index 0d123f5..f002b36 100644
--- a/src/src/vatti.h
+++ b/src/src/vatti.h
@@ -167,6 +167,7 @@ namespace vatti
     segment* copy_seg(const edge* e, bool reverse = false);
 
     void process_intersect();
+    void merge_break_point();
     void add_local_min(vertex* vert, path_type pt, bool is_open);
     void reset();
     void insert_scanline(num y);
-- 
2.43.0


From 2337fd3198a3cf45d9baab8ec5ad8ceac1db0a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:59 +0000
Subject: [PATCH 17/37] fix: the right edge of a local minimum may lie left of
 the left one

---
 src/src/vatti.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 4dba6fa..8b15860 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -831,7 +831,7 @@ namespace vatti
       b->curr_x = b->bot.x;
 
       insert_into_ael(a);
-      insert_into_ael(a->prev_in_ael, b);
+      insert_into_ael(b);
       insert_scanline(a->top.y);
       insert_scanline(b->top.y);
     }
-- 
2.43.0


From 6b7d4bdd7861cedcb978c93c8a761d3041683149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:59 +0000
Subject: [PATCH 18/37] fix: resort_ael handles edges moved by horizontals

---
 src/src/vatti.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 8b15860..140bd8f 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -1294,23 +1294,19 @@ namespace vatti
     std::sort(list.begin(), list.end());
     list.erase(std::unique(list.begin(), list.end()), list.end());
 
-    auto it = list.begin();
+    // 经过水平线的边 curr_x 已经改变，此时 ael 不一定按 curr_x 有序
     auto e = ael_first;
-
     std::vector<edge*> reinsert_list;
-    while (it != list.end() && e) {
-      if (e->curr_x == *it) {
+    while (e) {
+      auto next = e->next_in_ael;
+      if (std::binary_search(list.begin(), list.end(), e->curr_x)) {
         reinsert_list.push_back(e);
-        auto next = e->next_in_ael;
         // 重新排列也意味着原来的bound有可能失效
         if (e->bound) e->bound->curr_edge = nullptr;
         e->bound = nullptr;
         take_from_ael(e);
-        e = next;
       }
-      else if (*it < e->curr_x)
-        ++it;
-      else e = e->next_in_ael;
+      e = next;
     }
 
     for (auto e : reinsert_list) insert_into_ael(e);
-- 
2.43.0


From 2525eea3b7bf0d97e4053b99f247ea08433932e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:59 +0000
Subject: [PATCH 19/37] fix: output direction follows the output region, not
 the input edge

---
 src/src/vatti.cpp | 23 ++++++++++++++---------
 src/src/vatti.h   |  2 +-
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 140bd8f..7909214 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -945,6 +945,7 @@ namespace vatti
     struct new_bound {
       class edge* edge = nullptr;
       bool is_done = false;
+      bool is_left = true; // 输出区域位于该边的右侧
     };
     std::vector<new_bound> bound_edge;
     // 开始构建新的输出
@@ -955,7 +956,7 @@ namespace vatti
         if (!bound_edge.empty() && is_same(e, bound_edge.back().edge))
           bound_edge.pop_back();
         else
-          bound_edge.push_back({ e, false });
+          bound_edge.push_back({ e, false, bound_edge.size() % 2 == 0 });
       }
       e = e->next_in_ael;
     }
@@ -968,7 +969,7 @@ namespace vatti
         bound_edge[i - 1].is_done = true;
         bound_edge[i - 0].is_done = true;
 
-        new_output(bound_edge[i - 1].edge, bound_edge[i].edge);
+        new_output(bound_edge[i - 1].edge, bound_edge[i].edge, true);
       }
     }
 
@@ -977,6 +978,7 @@ namespace vatti
       out_bound* bound;
       num curr_x;
       size_t obl_index;
+      bool is_left;
     };
 
     // bound_edge 和 obl 剩下的依次按 curr_x, is_up, obl_index, ael, obl原来的顺序排序
@@ -984,11 +986,11 @@ namespace vatti
     std::list<bound_data> sbl;
     for (auto& new_b : bound_edge) {
       if (new_b.is_done == false) sbl.push_back({
-          new_b.edge, nullptr, new_b.edge->curr_x, sbl.size() });
+          new_b.edge, nullptr, new_b.edge->curr_x, sbl.size(), new_b.is_left });
     }
     auto curr_b = obl_first;
     while (curr_b) {
-      sbl.push_back({ nullptr, curr_b, curr_b->stop_x, sbl.size() });
+      sbl.push_back({ nullptr, curr_b, curr_b->stop_x, sbl.size(), false });
       curr_b = curr_b->next_in_obl;
     }
     sbl.sort(
@@ -1022,7 +1024,7 @@ namespace vatti
 
         // 只剩下可以按顺序两两相连即可
         next = std::next(it);
-        if (it->edge && next->edge) new_output(it->edge, next->edge);
+        if (it->edge && next->edge) new_output(it->edge, next->edge, it->is_left);
         else if (it->bound && next->bound) join_output(it->bound, next->bound, y);
         else if (it->edge) update_bound(next->bound, it->edge);
         else update_bound(it->bound, next->edge);
@@ -1423,9 +1425,12 @@ namespace vatti
     delete_obl_bound(b);
   }
 
-  // a、b 的wind_dx必定相反
-  void clipper::new_output(edge* a, edge* b)
+  // a 在左 b 在右，两侧的方向由输出区域的位置决定，与输入边自身的方向无关
+  void clipper::new_output(edge* a, edge* b, bool a_is_left)
   {
+    const int left_dx = fillrule_ == fill_rule::negative ? -1 : 1;
+    const int a_dx = a_is_left ? left_dx : -left_dx;
+
     auto output = new_out_polygon();
     output->idx = output_list.size();
     output_list.push_back(output);
@@ -1435,14 +1440,14 @@ namespace vatti
     up->owner = output;
     up->curr_edge = a;
     a->bound = up;
-    up->wind_dx = a->wind_dx;
+    up->wind_dx = a_dx;
     up->stop_x = a->curr_x;
 
     auto down = new_bound();
     down->owner = output;
     down->curr_edge = b;
     b->bound = down;
-    down->wind_dx = b->wind_dx;
+    down->wind_dx = -a_dx;
     down->stop_x = b->curr_x;
 
     if (!up->is_up()) {
diff --git a/src/src/vatti.h b/src/src/vatti.h
index f002b36..c10160c 100644
--- a/src/src/vatti.h
+++ b/src/src/vatti.h
@@ -189,7 +189,7 @@ namespace vatti
     void resort_ael(num y);
     void build_output(path_traverse_funcs write_func, void* output);
     void join_output(out_bound* a, out_bound* b, num y);
-    void new_output(edge* a, edge* b);
+    void new_output(edge* a, edge* b, bool a_is_left);
     void update_bound(out_bound* bound, edge* new_edge);
     void delete_obl_bound(out_bound*);
     edge* do_maxima(edge* e);
-- 
2.43.0


From 023d837fec238935076460e383db61fb000c415b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:15 +0000
Subject: [PATCH 20/37] fix: intersections on the border of a segment's
 bounding box are not missed

A curve whose extreme x passes exactly through another segment's end point
was not paired with it, because the computed boundary is a rounding error
short.
---
 src/src/vatti.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 7909214..5e5b196 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -29,7 +29,8 @@ namespace scan_line
 
     static box get_rect(const key& in)
     {
-      return in->next_seg->get_boundary(in->pt);
+      // 留出计算误差，避免遗漏刚好位于包围框边界上的交点
+      return in->next_seg->get_boundary(in->pt).inflated(1e-9);
     }
 
     static void intersect(const key& r, const key& l, void* user)
-- 
2.43.0


From 65f4f96f12aaba75f7565825f96b4e90dfad83fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:15 +0000
Subject: [PATCH 21/37] fix: an intersection at a segment's end breaks the
 other segment at that end

When an intersection is within tolerance of an end point the segment is not
broken, but the other segment was broken at the slightly different computed
point, so both no longer met.
---
 src/src/vatti.cpp | 21 +++++++++++++++------
 src/src/vatti.h   |  1 +
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 5e5b196..6c29751 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -1618,6 +1618,18 @@ namespace vatti
       }
   }
 
+  void clipper::add_break_info(vertex* a, num ta, vertex* b, num tb, point p)
+  {
+    // 误差范围内位于端点的交点不会打断该线段，此时另一方必须打断在该端点上
+    if (ta <= zero) p = a->pt;
+    else if (ta >= one) p = a->next->pt;
+    else if (tb <= zero) p = b->pt;
+    else if (tb >= one) p = b->next->pt;
+
+    if (zero < ta && ta < one) break_info_list.push_back({ a, p, ta });
+    if (zero < tb && tb < one) break_info_list.push_back({ b, p, tb });
+  }
+
   void clipper::intersect(vertex* const& l, vertex* const& r)
   {
 
@@ -1636,8 +1648,7 @@ namespace vatti
       auto res = rmath::intersect(l->pt, lseg->get_target(), r->pt, rseg->get_target());
       for (int i = 0; i < res.count; ++i) {
         auto& data = res.data[i];
-        if (zero < data.t0 && data.t0 < one) break_info_list.push_back({ l,data.p,data.t0 });
-        if (zero < data.t1 && data.t1 < one) break_info_list.push_back({ r,data.p,data.t1 });
+        add_break_info(l, data.t0, r, data.t1, data.p);
       }
       break;
     }
@@ -1653,8 +1664,7 @@ namespace vatti
       auto res = rmath::intersect(_line, _curve);
       for (int i = 0; i < res.count; ++i) {
         auto& data = res.data[i];
-        if (zero < data.t0 && data.t0 < one) break_info_list.push_back({ line,data.p,data.t0 });
-        if (zero < data.t1 && data.t1 < one) break_info_list.push_back({ cubic,data.p,data.t1 });
+        add_break_info(line, data.t0, cubic, data.t1, data.p);
       }
       break;
     }
@@ -1666,8 +1676,7 @@ namespace vatti
       auto res = rmath::intersect(c1->get_cubic(l->pt), c2->get_cubic(r->pt), 40);
       for (int i = 0; i < res.count; ++i) {
         auto& data = res.data[i];
-        if (zero < data.t0 && data.t0 < one) break_info_list.push_back({ l,data.p,data.t0 });
-        if (zero < data.t1 && data.t1 < one) break_info_list.push_back({ r,data.p,data.t1 });
+        add_break_info(l, data.t0, r, data.t1, data.p);
       }
       break;
     }
diff --git a/src/src/vatti.h b/src/src/vatti.h
index c10160c..1bb79e9 100644
--- a/src/src/vatti.h
+++ b/src/src/vatti.h
@@ -168,6 +168,7 @@ namespace vatti
 
     void process_intersect();
     void merge_break_point();
+    void add_break_info(vertex* a, num ta, vertex* b, num tb, point p);
     void add_local_min(vertex* vert, path_type pt, bool is_open);
     void reset();
     void insert_scanline(num y);
-- 
2.43.0


From 798f2baff11b95928ee6a332fa40a4e1f6a54249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:43 +0000
Subject: [PATCH 22/37] fix: consecutive vertices that differ by rounding only
 are one vertex

---
 src/src/vatti.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 6c29751..c046b48 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -51,6 +51,7 @@ namespace vatti
   constexpr double err = 1e-6;
   constexpr double zero = 0 + err;
   constexpr double one = 1 - err;
+  constexpr num merge_err = 1e-9;
 
   // ToDO: 判断没齐全
   bool is_vaild(const path& p) {
@@ -212,6 +213,11 @@ namespace vatti
     }
   };
 
+  // 距离小于合并误差的相邻顶点视为同一点
+  bool is_near(const point& l, const point& r) {
+    return std::abs(l.x - r.x) < merge_err && std::abs(l.y - r.y) < merge_err;
+  }
+
   void read_moveto(path_moveto_func_para) {
     auto data = (process_path_data*)(user);
     auto& first = data->first;
@@ -235,9 +241,10 @@ namespace vatti
     // 没有 moveto 时从当前点开始
     if (!data->first) read_moveto(from, from, user);
 
-    if (from != to) {
+    const point dst = is_near(data->first->pt, to) ? data->first->pt : to;
+    if (!is_near(data->prev->pt, dst)) {
       data->new_cur_vertex();
-      set_segment(data->prev, data->cur, data->clipper->new_lineto(to));
+      set_segment(data->prev, data->cur, data->clipper->new_lineto(dst));
       data->next_loop();
     }
   }
@@ -257,7 +264,8 @@ namespace vatti
     // 没有 moveto 时从当前点开始
     if (!data->first) read_moveto(from, from, user);
 
-    bezier_cubic b{from, ctrl1, ctrl2, to};
+    const point dst = is_near(data->first->pt, to) ? data->first->pt : to;
+    bezier_cubic b{data->prev->pt, ctrl1, ctrl2, dst};
 
     // 水平状态下视为直线
     if (b.p0.y == b.p1.y && b.p1.y == b.p2.y && b.p2.y == b.p3.y) {
@@ -310,7 +318,7 @@ namespace vatti
       break;
     default:
       data->new_cur_vertex();
-      set_segment(prev, cur, clipper->new_cubicto(ctrl1, ctrl2, to));
+      set_segment(prev, cur, clipper->new_cubicto(ctrl1, ctrl2, dst));
       data->next_loop();
       break;
     }
@@ -727,8 +735,6 @@ namespace vatti
   // 否则扫描过程中会出现极扁的扫描带，重合的线段也不再重合
   void clipper::merge_break_point()
   {
-    constexpr num merge_err = 1e-9;
-
     std::vector<point> vertices;
     for (auto& start : paths_start) {
       auto cur = start;
-- 
2.43.0


From 3be1f05beef6c0746f8bb3474dc3b025f7cf28d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:40 +0000
Subject: [PATCH 23/37] fix: coordinates that differ by rounding only are one
 coordinate

---
 src/src/vatti.cpp | 46 ++++++++++++++++++++++++++++++----------------
 src/src/vatti.h   |  3 +++
 2 files changed, 33 insertions(+), 16 deletions(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index c046b48..327116f 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -51,6 +51,7 @@ namespace vatti
   constexpr double err = 1e-6;
   constexpr double zero = 0 + err;
   constexpr double one = 1 - err;
+  // 坐标相差小于该值时视为同一个值
   constexpr num merge_err = 1e-9;
 
   // ToDO: 判断没齐全
@@ -213,11 +214,6 @@ namespace vatti
     }
   };
 
-  // 距离小于合并误差的相邻顶点视为同一点
-  bool is_near(const point& l, const point& r) {
-    return std::abs(l.x - r.x) < merge_err && std::abs(l.y - r.y) < merge_err;
-  }
-
   void read_moveto(path_moveto_func_para) {
     auto data = (process_path_data*)(user);
     auto& first = data->first;
@@ -232,7 +228,7 @@ namespace vatti
 
     data->new_cur_vertex();
     data->first = data->cur;
-    data->first->pt = to;
+    data->first->pt = data->clipper->merge_point(to);
     data->next_loop();
   }
 
@@ -241,10 +237,10 @@ namespace vatti
     // 没有 moveto 时从当前点开始
     if (!data->first) read_moveto(from, from, user);
 
-    const point dst = is_near(data->first->pt, to) ? data->first->pt : to;
-    if (!is_near(data->prev->pt, dst)) {
+    const point target = data->clipper->merge_point(to);
+    if (data->prev->pt != target) {
       data->new_cur_vertex();
-      set_segment(data->prev, data->cur, data->clipper->new_lineto(dst));
+      set_segment(data->prev, data->cur, data->clipper->new_lineto(target));
       data->next_loop();
     }
   }
@@ -264,12 +260,12 @@ namespace vatti
     // 没有 moveto 时从当前点开始
     if (!data->first) read_moveto(from, from, user);
 
-    const point dst = is_near(data->first->pt, to) ? data->first->pt : to;
-    bezier_cubic b{data->prev->pt, ctrl1, ctrl2, dst};
+    bezier_cubic b{ prev->pt, clipper->merge_point(ctrl1), clipper->merge_point(ctrl2),
+      clipper->merge_point(to) };
 
     // 水平状态下视为直线
     if (b.p0.y == b.p1.y && b.p1.y == b.p2.y && b.p2.y == b.p3.y) {
-      read_lineto(from, to, user);
+      read_lineto(b.p0, b.p3, user);
       return;
     }
 
@@ -283,12 +279,19 @@ namespace vatti
     }
     bezier_cubic tmp[3];
     b.split(recheck_t.data(), tmp, recheck_t.size());
+    for (size_t i = 0; i < recheck_t.size(); ++i) {
+      tmp[i].p1 = clipper->merge_point(tmp[i].p1);
+      tmp[i].p2 = clipper->merge_point(tmp[i].p2);
+      tmp[i].p3 = tmp[i + 1].p0 = clipper->merge_point(tmp[i].p3);
+      tmp[i + 1].p1 = clipper->merge_point(tmp[i + 1].p1);
+      tmp[i + 1].p2 = clipper->merge_point(tmp[i + 1].p2);
+    }
 
     // 控制点全部共线时视为（来回折返的）直线，否则重合的部分不能正确求交
-    const auto on_line = [&](const point& l, const point& r) { return (l - from).cross(r - from) == 0; };
-    if (on_line(ctrl1, ctrl2) && on_line(ctrl1, to) && on_line(ctrl2, to)) {
+    const auto on_line = [&](const point& l, const point& r) { return (l - b.p0).cross(r - b.p0) == 0; };
+    if (on_line(b.p1, b.p2) && on_line(b.p1, b.p3) && on_line(b.p2, b.p3)) {
       for (size_t i = 0; i < recheck_t.size(); ++i) read_lineto(tmp[i].p0, tmp[i].p3, user);
-      read_lineto(recheck_t.empty() ? from : tmp[recheck_t.size()].p0, to, user);
+      read_lineto(recheck_t.empty() ? b.p0 : tmp[recheck_t.size()].p0, b.p3, user);
       return;
     }
 
@@ -318,7 +321,7 @@ namespace vatti
       break;
     default:
       data->new_cur_vertex();
-      set_segment(prev, cur, clipper->new_cubicto(ctrl1, ctrl2, dst));
+      set_segment(prev, cur, clipper->new_cubicto(b.p1, b.p2, b.p3));
       data->next_loop();
       break;
     }
@@ -459,6 +462,17 @@ namespace vatti
     return v;
   }
 
+  // 计算得到的输入常有微小的误差，和已有坐标几乎一致的直接使用已有的坐标
+  point clipper::merge_point(const point& p)
+  {
+    const auto merge = [](std::set<num>& values, num v) {
+      auto it = values.lower_bound(v - merge_err);
+      if (it == values.end() || *it - v >= merge_err) it = values.insert(v).first;
+      return *it;
+    };
+    return point(merge(merge_x, p.x), merge(merge_y, p.y));
+  }
+
   seg_lineto* clipper::new_lineto(const point& target)
   {
     auto l = line_pool.malloc();
diff --git a/src/src/vatti.h b/src/src/vatti.h
index 1bb79e9..b98c921 100644
--- a/src/src/vatti.h
+++ b/src/src/vatti.h
@@ -1,6 +1,7 @@
 #pragma once
 #include "river.h"
 #include <queue>
+#include <set>
 #include "boost/pool/pool.hpp"
 #include "boost/pool/object_pool.hpp"
 
@@ -155,6 +156,7 @@ namespace vatti
 
     void intersect(vertex* const& r, vertex* const& l);
     vertex* new_vertex();
+    point merge_point(const point& p);
     seg_lineto* new_lineto(const point& target);
     seg_cubicto* new_cubicto(const point& ctrl1, const point& ctrl2,
       const point& target);
@@ -209,6 +211,7 @@ namespace vatti
     boost::object_pool<local_minima> local_minima_pool;
     boost::object_pool<out_polygon> out_polygon_pool;
 
+    std::set<num> merge_x, merge_y;
     std::vector<vertex*> paths_start;
     std::vector<break_info> break_info_list;
     std::vector<local_minima*> local_minima_list;
-- 
2.43.0


From f9d82e3a5064125062e0c28a059e2918d0c15876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:53 +0000
Subject: [PATCH 24/37] fix: cubics that are straight up to rounding are
 clipped as lines

---
 src/src/vatti.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 327116f..76dc8cd 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -288,7 +288,10 @@ namespace vatti
     }
 
     // 控制点全部共线时视为（来回折返的）直线，否则重合的部分不能正确求交
-    const auto on_line = [&](const point& l, const point& r) { return (l - b.p0).cross(r - b.p0) == 0; };
+    const auto on_line = [&](const point& l, const point& r) {
+      const point u = l - b.p0, v = r - b.p0;
+      return std::abs(u.cross(v)) <= merge_err * (std::max)(u.dist(), v.dist());
+    };
     if (on_line(b.p1, b.p2) && on_line(b.p1, b.p3) && on_line(b.p2, b.p3)) {
       for (size_t i = 0; i < recheck_t.size(); ++i) read_lineto(tmp[i].p0, tmp[i].p3, user);
       read_lineto(recheck_t.empty() ? b.p0 : tmp[recheck_t.size()].p0, b.p3, user);
-- 
2.43.0


From a61a138046d1dd430bccbf9e4a1e3eda3229d2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:04 +0000
Subject: [PATCH 25/37] fix: polishing a root never jumps to another root

---
 src/src/rmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index ab033a2..4167680 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -821,7 +821,7 @@ namespace rmath
       for (int n = 0; n < 4; ++n) {
         const double x = res.data[i];
         const double next = x - f(x) / ((3 * x + 2 * a) * x + b);
-        if (!(std::abs(f(next)) < std::abs(f(x)))) break;
+        if (std::abs(next - x) > 1e-3 * (std::abs(a) + std::sqrt(std::abs(p))) || !(std::abs(f(next)) < std::abs(f(x)))) break;
         res.data[i] = next;
       }
     }
-- 
2.43.0


From f3609d4c4de8bd77d89cead3c94b484be177b7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:48 +0000
Subject: [PATCH 26/37] fix: a contact at an end without speed does not hide
 other cubic/cubic crossings

---
 src/src/rmath.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 4167680..834704a 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -869,8 +869,8 @@ namespace rmath
     typedef std::pair<data, data> data_pair;
     std::vector<data_pair> pairs;
     std::vector<data_pair> intersect_pair;
-    constexpr double near_t = 1e-6;
-    constexpr size_t max_pair = 64;
+    constexpr double near_t = 1e-5;
+    constexpr size_t max_pair = 512;
 
     // 完全重合的曲线没有可以打断的交点
     if ((b1.p0 == b2.p0 && b1.p1 == b2.p1 && b1.p2 == b2.p2 && b1.p3 == b2.p3)
@@ -882,6 +882,8 @@ namespace rmath
     // 容许的计算误差，避免丢失位于端点上的交点
     const double bbox_err = 1e-13 * (p1.bbox.width() + p1.bbox.height() + p2.bbox.width() + p2.bbox.height());
     if (!p1.bbox.inflated(bbox_err).intersect(p2.bbox)) return res;
+    // 小于该尺寸的部分不再细分，速度为 0 的端点附近细分只会得到大量重复的结果
+    const double min_size = 1e5 * bbox_err;
 
     pairs.push_back(data_pair(p1, p2));
     while (!pairs.empty()) {
@@ -899,8 +901,12 @@ namespace rmath
       if (intersect_pair.size() > max_pair) break;
 
       data p11, p12, p21, p22;
-      back.first.subdive(p11, p12);
-      back.second.subdive(p21, p22);
+      const bool split_first = back.first.bbox.width() + back.first.bbox.height() > min_size;
+      const bool split_second = back.second.bbox.width() + back.second.bbox.height() > min_size;
+      if (split_first) back.first.subdive(p11, p12);
+      else { p11 = back.first; p11.recurse++; }
+      if (split_second) back.second.subdive(p21, p22);
+      else p21 = back.second;
 
       const auto check_func = [bbox_err](const data& p0, const data& p1, int precise,
         decltype(pairs)& next_out, decltype(intersect_pair)& intersect_out) {
@@ -913,9 +919,9 @@ namespace rmath
       };
 
       check_func(p11, p21, precise, pairs, intersect_pair);
-      check_func(p11, p22, precise, pairs, intersect_pair);
-      check_func(p12, p21, precise, pairs, intersect_pair);
-      check_func(p12, p22, precise, pairs, intersect_pair);
+      if (split_second) check_func(p11, p22, precise, pairs, intersect_pair);
+      if (split_first) check_func(p12, p21, precise, pairs, intersect_pair);
+      if (split_first && split_second) check_func(p12, p22, precise, pairs, intersect_pair);
     }
 
     std::sort(intersect_pair.begin(), intersect_pair.end(),
@@ -926,7 +932,7 @@ namespace rmath
     auto keep = intersect_pair.begin();
     for (auto it = intersect_pair.begin(); it != intersect_pair.end();) {
       auto end = std::next(it);
-      while (end != intersect_pair.end() && end->first.t0 - std::prev(end)->first.t0 < near_t * 4) ++end;
+      while (end != intersect_pair.end() && end->first.t0 - std::prev(end)->first.t1 < near_t * 4) ++end;
       *keep++ = *(it + (end - it - 1) / 2);
       it = end;
     }
-- 
2.43.0


From a40dbcede3e5b8a25909e9b7e819808f5146d4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:10 +0000
Subject: [PATCH 27/37] fix: the cubic solver deflates by its isolated root, so
 close roots keep their precision

---
 src/src/rmath.cpp | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 834704a..60cb055 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -816,14 +816,36 @@ namespace rmath
     }
 
     // 用牛顿法消除上面计算中累积的误差
-    for (int i = 0; i < res.count; ++i) {
-      const auto f = [&](double x) { return ((x + a) * x + b) * x + c; };
-      for (int n = 0; n < 4; ++n) {
-        const double x = res.data[i];
-        const double next = x - f(x) / ((3 * x + 2 * a) * x + b);
-        if (std::abs(next - x) > 1e-3 * (std::abs(a) + std::sqrt(std::abs(p))) || !(std::abs(f(next)) < std::abs(f(x)))) break;
-        res.data[i] = next;
+    const auto polish = [&]() {
+      for (int i = 0; i < res.count; ++i) {
+        const auto f = [&](double x) { return ((x + a) * x + b) * x + c; };
+        for (int n = 0; n < 4; ++n) {
+          const double x = res.data[i];
+          const double next = x - f(x) / ((3 * x + 2 * a) * x + b);
+          if (std::abs(next - x) > 1e-3 * (std::abs(a) + std::sqrt(std::abs(p))) || !(std::abs(f(next)) < std::abs(f(x)))) break;
+          res.data[i] = next;
+        }
+      }
+    };
+    polish();
+
+    // 靠得很近的两个解在上面的计算中损失精度，远离它们的那个解是准确的，用它降次后重新求解
+    double r = res.data[0];
+    for (int i = 1; i < res.count; ++i) {
+      if (std::abs(res.data[i] + a / 3) > std::abs(r + a / 3)) r = res.data[i];
+    }
+    if (std::abs(r + a / 3) > 1e-6 * std::abs(a) && r != 0) {
+      // x^3 + a·x^2 + b·x + c = (x - r)(x^2 + b1·x + b0)
+      const bool large = std::abs(r * r * r) > std::abs(c);
+      const double b0 = large ? -c / r : b + r * (a + r);
+      const double b1 = large ? (b0 - b) / r : a + r;
+      auto quad_res = resolv_quad_equa(1, b1, b0);
+      res.count = 1 + quad_res.count;
+      res.data[0] = r;
+      for (int i = 0; i < quad_res.count; ++i) {
+        res.data[i + 1] = quad_res.data[i];
       }
+      polish();
     }
 
     return res;
-- 
2.43.0


From e0f57bb65d07fdaf5874c761798fd9a955e7b9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:20 +0000
Subject: [PATCH 28/37] fix: the solvers judge vanishing coefficients by
 relative size

---
 src/src/rmath.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 60cb055..27e9964 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -638,10 +638,12 @@ namespace rmath
   quad_equa_result resolv_quad_equa(double a, double b, double c)
   {
     quad_equa_result res;
-    if (is_zero(a))
+    // 系数的量级由输入决定，只能按相对误差判断是否为 0
+    constexpr double zero_err = 1e-12;
+    if (std::abs(a) <= zero_err * (std::max)(std::abs(b), std::abs(c)))
     {
       //一元方程
-      if (is_zero(b))
+      if (std::abs(b) <= zero_err * std::abs(c))
         return res;
 
       res.count = 1;
@@ -660,8 +662,10 @@ namespace rmath
     {
       double sqrtK = std::sqrt(k);
       res.count = 2;
-      res.data[0] = (-b + sqrtK) / (2 * a);
-      res.data[1] = (-b - sqrtK) / (2 * a);
+      // 避免相近的数相减
+      double m = b < 0 ? (-b + sqrtK) / 2 : (-b - sqrtK) / 2;
+      res.data[0] = b < 0 ? m / a : c / m;
+      res.data[1] = b < 0 ? c / m : m / a;
     }
 
     return res;
@@ -671,8 +675,9 @@ namespace rmath
   {
     cubic_equa_result res;
 
-    // ToDo 这里还需要判断a3与a2的指数是否相差过大
-    if (is_zero(a3))
+    // 系数的量级由输入决定，只能按相对误差判断是否为 0
+    constexpr double zero_err = 1e-12;
+    if (std::abs(a3) <= zero_err * (std::max)({ std::abs(a2), std::abs(a1), std::abs(a0) }))
     {
       //二次方程
       auto quad_res = resolv_quad_equa(a2, a1, a0);
-- 
2.43.0


From c2937c2509e668fe31aff2984114612fd519a450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:29 +0000
Subject: [PATCH 29/37] fix: curves that coincide up to rounding have no
 crossings to report

---
 src/src/rmath.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 27e9964..a8884b9 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -899,18 +899,20 @@ namespace rmath
     constexpr double near_t = 1e-5;
     constexpr size_t max_pair = 512;
 
-    // 完全重合的曲线没有可以打断的交点
-    if ((b1.p0 == b2.p0 && b1.p1 == b2.p1 && b1.p2 == b2.p2 && b1.p3 == b2.p3)
-      || (b1.p0 == b2.p3 && b1.p1 == b2.p2 && b1.p2 == b2.p1 && b1.p3 == b2.p0))
-      return res;
-
     data p1{ b1,rough_rect(b1),0,1,0 };
     data p2{ b2,rough_rect(b2),0,1,0 };
     // 容许的计算误差，避免丢失位于端点上的交点
     const double bbox_err = 1e-13 * (p1.bbox.width() + p1.bbox.height() + p2.bbox.width() + p2.bbox.height());
     if (!p1.bbox.inflated(bbox_err).intersect(p2.bbox)) return res;
+
+    // 重合（仅有计算误差）的曲线没有可以打断的交点
+    const auto is_same = [bbox_err](const vec2& l, const vec2& r) { return (l - r).dist() <= bbox_err; };
+    if ((is_same(b1.p0, b2.p0) && is_same(b1.p1, b2.p1) && is_same(b1.p2, b2.p2) && is_same(b1.p3, b2.p3))
+      || (is_same(b1.p0, b2.p3) && is_same(b1.p1, b2.p2) && is_same(b1.p2, b2.p1) && is_same(b1.p3, b2.p0)))
+      return res;
+
     // 小于该尺寸的部分不再细分，速度为 0 的端点附近细分只会得到大量重复的结果
-    const double min_size = 1e5 * bbox_err;
+    const double min_size = 1e3 * bbox_err;
 
     pairs.push_back(data_pair(p1, p2));
     while (!pairs.empty()) {
-- 
2.43.0


From 8443a14470838607c306b7b6849954e33a027b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:35 +0000
Subject: [PATCH 30/37] fix: cubic/cubic crossings are polished and end
 contacts use the end points

---
 src/src/rmath.cpp | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index a8884b9..b98aadf 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -912,7 +912,7 @@ namespace rmath
       return res;
 
     // 小于该尺寸的部分不再细分，速度为 0 的端点附近细分只会得到大量重复的结果
-    const double min_size = 1e3 * bbox_err;
+    const double min_size = 1e6 * bbox_err;
 
     pairs.push_back(data_pair(p1, p2));
     while (!pairs.empty()) {
@@ -962,8 +962,17 @@ namespace rmath
     for (auto it = intersect_pair.begin(); it != intersect_pair.end();) {
       auto end = std::next(it);
       while (end != intersect_pair.end() && end->first.t0 - std::prev(end)->first.t1 < near_t * 4) ++end;
-      *keep++ = *(it + (end - it - 1) / 2);
-      it = end;
+      auto mid = *(it + (end - it - 1) / 2);
+      // 在双方的端点处接触时直接使用端点
+      for (; it != end; ++it) {
+        const bool s0 = it->first.t0 < near_t, e0 = it->first.t1 > 1 - near_t;
+        const bool s1 = it->second.t0 < near_t, e1 = it->second.t1 > 1 - near_t;
+        if ((s0 || e0) && (s1 || e1) && is_same(s0 ? b1.p0 : b1.p3, s1 ? b2.p0 : b2.p3)) {
+          mid.first.t0 = mid.first.t1 = s0 ? 0 : 1;
+          mid.second.t0 = mid.second.t1 = s1 ? 0 : 1;
+        }
+      }
+      *keep++ = mid;
     }
     intersect_pair.erase(keep, intersect_pair.end());
 
@@ -972,6 +981,22 @@ namespace rmath
       auto& p = intersect_pair[i];
       res.data[i].t0 = (p.first.t0 + p.first.t1) / 2;
       res.data[i].t1 = (p.second.t0 + p.second.t1) / 2;
+
+      // 牛顿法提高精度，相切时不适用
+      for (int n = 0; n < 4; ++n) {
+        double& t0 = res.data[i].t0;
+        double& t1 = res.data[i].t1;
+        const vec2 f = b2.point_at(t1) - b1.point_at(t0);
+        const vec2 d0 = (b1.p1 - b1.p0) * (3 * (1 - t0) * (1 - t0)) + (b1.p2 - b1.p1) * (6 * (1 - t0) * t0) + (b1.p3 - b1.p2) * (3 * t0 * t0);
+        const vec2 d1 = (b2.p1 - b2.p0) * (3 * (1 - t1) * (1 - t1)) + (b2.p2 - b2.p1) * (6 * (1 - t1) * t1) + (b2.p3 - b2.p2) * (3 * t1 * t1);
+        const double den = d0.cross(d1);
+        if (std::abs(den) <= 1e-3 * d0.dist() * d1.dist()) break;
+        const double s0 = f.cross(d1) / den;
+        const double s1 = f.cross(d0) / den;
+        if (std::abs(s0) > near_t || std::abs(s1) > near_t) break;
+        t0 = (std::min)((std::max)(t0 + s0, 0.), 1.);
+        t1 = (std::min)((std::max)(t1 + s1, 0.), 1.);
+      }
       res.data[i].p = b1.point_at(res.data[i].t0);
       res.count += 1;
       if (res.count == 9) break;
-- 
2.43.0


From c837981b36b3853374b39cbdbc0adcb30bfe7ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:59 +0000
Subject: [PATCH 31/37] fix: crossings close to the end of a segment are not
 dropped

---
 src/src/vatti.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 76dc8cd..0281027 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -1643,6 +1643,9 @@ namespace vatti
 
   void clipper::add_break_info(vertex* a, num ta, vertex* b, num tb, point p)
   {
+    // 只排除计算误差，靠近端点的交点不能丢弃
+    constexpr double zero = 1e-12;
+    constexpr double one = 1 - zero;
     // 误差范围内位于端点的交点不会打断该线段，此时另一方必须打断在该端点上
     if (ta <= zero) p = a->pt;
     else if (ta >= one) p = a->next->pt;
-- 
2.43.0


From 375d1cf37b3c25eb218a5211b77372838d8110de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:38 +0000
Subject: [PATCH 32/37] fix: coinciding curves whose pieces differ by rounding
 cancel each other

---
 src/src/vatti.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 0281027..8496660 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -184,8 +184,10 @@ namespace vatti
       {
         auto c1 = (seg_cubicto*)get_seg(a);
         auto c2 = (seg_cubicto*)get_seg(b);
-        return (c1->ctrl1 == c2->ctrl1 && c1->ctrl2 == c2->ctrl2)
-          || (c1->ctrl2 == c2->ctrl1 && c1->ctrl1 == c2->ctrl2);
+        // 重合的曲线分别打断后控制点会有计算误差
+        const auto same = [](const point& l, const point& r) { return (l - r).dist() < merge_err; };
+        return (same(c1->ctrl1, c2->ctrl1) && same(c1->ctrl2, c2->ctrl2))
+          || (same(c1->ctrl2, c2->ctrl1) && same(c1->ctrl1, c2->ctrl2));
         break;
       }
       default:
-- 
2.43.0


From 74f36a6cf9475a958faaac9ad3c149b1ea212336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:27 +0000
Subject: [PATCH 33/37] fix: process always starts from the unbroken input
 segments

process() broke the input segments in place, so a second process() after
adding a path that coincides with one already processed started from
pieces that no longer agreed with the vertices and crashed.
---
 src/src/vatti.cpp | 21 +++++++++++++--------
 src/src/vatti.h   |  9 +++++++++
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 8496660..185da34 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -616,6 +616,14 @@ namespace vatti
   {
     break_info_list.clear();
 
+    // 还原上一次 process 打断的线段，总是从输入的线段开始
+    for (auto& origin : origin_list) {
+      origin.vert->next = origin.next;
+      origin.vert->next_seg = origin.seg;
+      origin.next->prev = origin.vert;
+    }
+    origin_list.clear();
+
     // 先求交点
     scan_line::scan_line<vertex*> scaner;
     for (auto& start : paths_start) {
@@ -662,6 +670,7 @@ namespace vatti
 
       auto start_p = cur_v->pt;
       auto start_seg = cur_v->next_seg;
+      origin_list.push_back({ start_v, end_v, start_seg });
       //auto end_p = cur_v->next->pt;
       switch (start_seg->get_type())
       {
@@ -670,9 +679,8 @@ namespace vatti
         std::vector<break_info> cur_break_list(start, end);
         //auto dx = end_p.x >= start_p.x;
         //auto dy = end_p.y >= start_p.y;
-        ((seg_lineto*)start_seg)->target = cur_break_list[0].break_point;
         auto next = new_vertex();
-        set_segment(start_v, next, start_seg);
+        set_segment(start_v, next, new_lineto(cur_break_list[0].break_point));
         cur_v = next;
         for (size_t i = 1; i < cur_break_list.size(); ++i) {
           set_segment(cur_v, new_vertex(), new_lineto(cur_break_list[i].break_point));
@@ -693,14 +701,11 @@ namespace vatti
         std::vector<bezier_cubic> split_c(cur_break_list.size() + 1);
         std::vector<double> split_t;
         for (auto& info : cur_break_list) split_t.push_back(info.t);
-        auto first_cubicto = (seg_cubicto*)start_seg;
-        first_cubicto->get_cubic(start_p).split(split_t.data(), split_c.data(), split_t.size());
+        ((seg_cubicto*)start_seg)->get_cubic(start_p).split(split_t.data(), split_c.data(), split_t.size());
 
-        first_cubicto->ctrl1 = split_c[0].p1;
-        first_cubicto->ctrl2 = split_c[0].p2;
-        first_cubicto->target = cur_break_list[0].break_point;
         auto next = new_vertex();
-        set_segment(start_v, next, first_cubicto);
+        set_segment(start_v, next, new_cubicto(
+          split_c[0].p1, split_c[0].p2, cur_break_list[0].break_point));
         cur_v = next;
         for (size_t i = 1; i < cur_break_list.size(); ++i) {
           set_segment(cur_v, new_vertex(), new_cubicto(
diff --git a/src/src/vatti.h b/src/src/vatti.h
index b98c921..9ddc843 100644
--- a/src/src/vatti.h
+++ b/src/src/vatti.h
@@ -70,6 +70,14 @@ namespace vatti
     }
   };
 
+  // 被打断前的线段
+  struct origin_info
+  {
+    vertex* vert;
+    vertex* next;
+    segment* seg;
+  };
+
   struct out_seg {
     seg_type type = seg_type::moveto;
     void* data = nullptr;
@@ -214,6 +222,7 @@ namespace vatti
     std::set<num> merge_x, merge_y;
     std::vector<vertex*> paths_start;
     std::vector<break_info> break_info_list;
+    std::vector<origin_info> origin_list;
     std::vector<local_minima*> local_minima_list;
     std::vector<local_minima*>::iterator cur_locmin_it;
     std::priority_queue<num, std::vector<num>, std::greater<num>> scanline_list;
-- 
2.43.0


From 4cfdd9b6f472f7728068d3cc7cb0049156bd57c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:27 +0000
Subject: [PATCH 34/37] fix: coinciding curves keep one place and one order in
 the active edge list

The position of each copy was computed separately, so rounding could swap
copies between scan lines where only some of them were sorted again:
process() crashed on copies of a curve that a further edge cuts.
---
 src/src/vatti.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 185da34..2dfe3c4 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -1232,7 +1232,7 @@ namespace vatti
     point rp, np;
     auto rx = get_seg(resident, rp)->curr_x(rp, mid);
     auto nx = get_seg(newcomer, np)->curr_x(np, mid);
-    if (rx != nx) return rx < nx;
+    if (rx != nx && !is_same(resident, newcomer)) return rx < nx;
 
     return get_polytype(resident) < get_polytype(newcomer);
   }
@@ -1293,7 +1293,10 @@ namespace vatti
         }
       }
       else {
-        update_intermediate_curr_x(e, y);
+        // 重合的曲线分别计算会有误差，顺序会因此混乱
+        auto prev = e->prev_in_ael;
+        if (prev && is_same(prev, e)) e->curr_x = prev->curr_x;
+        else update_intermediate_curr_x(e, y);
         if (is_hot(e)) e->bound->stop_x = e->curr_x;
         if (e->curr_x == last_x) insert_windcnt_change(last_x);
         last_x = e->curr_x;
-- 
2.43.0


From 5dde8acc4c5cccfe43196d02913a7db4dc8db4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:09 +0000
Subject: [PATCH 35/37] fix: contacts at a curve end with zero speed are
 computed accurately

---
 src/src/rmath.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index b98aadf..da56c14 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -982,8 +982,10 @@ namespace rmath
       res.data[i].t0 = (p.first.t0 + p.first.t1) / 2;
       res.data[i].t1 = (p.second.t0 + p.second.t1) / 2;
 
-      // 牛顿法提高精度，相切时不适用
-      for (int n = 0; n < 4; ++n) {
+      // 牛顿法提高精度，相切时不适用，速度为 0 的端点附近 t 的范围较大，收敛也较慢
+      const double max_s0 = near_t + p.first.t1 - p.first.t0;
+      const double max_s1 = near_t + p.second.t1 - p.second.t0;
+      for (int n = 0; n < 40; ++n) {
         double& t0 = res.data[i].t0;
         double& t1 = res.data[i].t1;
         const vec2 f = b2.point_at(t1) - b1.point_at(t0);
@@ -993,9 +995,10 @@ namespace rmath
         if (std::abs(den) <= 1e-3 * d0.dist() * d1.dist()) break;
         const double s0 = f.cross(d1) / den;
         const double s1 = f.cross(d0) / den;
-        if (std::abs(s0) > near_t || std::abs(s1) > near_t) break;
+        if (std::abs(s0) > max_s0 || std::abs(s1) > max_s1) break;
         t0 = (std::min)((std::max)(t0 + s0, 0.), 1.);
         t1 = (std::min)((std::max)(t1 + s1, 0.), 1.);
+        if (std::abs(s0) + std::abs(s1) < 1e-15) break;
       }
       res.data[i].p = b1.point_at(res.data[i].t0);
       res.count += 1;
-- 
2.43.0


From b8608eeae6fd74eaa2cd1e53632ca63f1c3069da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:00 +0000
Subject: [PATCH 36/37] fix: a curve passing twice through a crossing is
 reported twice

---
 src/src/rmath.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index da56c14..dcae3c7 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -897,6 +897,7 @@ namespace rmath
     std::vector<data_pair> pairs;
     std::vector<data_pair> intersect_pair;
     constexpr double near_t = 1e-5;
+    constexpr double far_t = 1e-2;
     constexpr size_t max_pair = 512;
 
     data p1{ b1,rough_rect(b1),0,1,0 };
@@ -959,9 +960,19 @@ namespace rmath
       });
     // 合并太过相似的结果，连成一片的结果只取中间的
     auto keep = intersect_pair.begin();
+    auto run_end = intersect_pair.begin();
     for (auto it = intersect_pair.begin(); it != intersect_pair.end();) {
+      if (it == run_end) {
+        ++run_end;
+        while (run_end != intersect_pair.end() && run_end->first.t0 - std::prev(run_end)->first.t1 < near_t * 4) ++run_end;
+        // b2 可能多次经过同一个点
+        std::stable_sort(it, run_end,
+          [](const data_pair& l, const data_pair& r) {
+            return l.second.t0 < r.second.t0;
+          });
+      }
       auto end = std::next(it);
-      while (end != intersect_pair.end() && end->first.t0 - std::prev(end)->first.t1 < near_t * 4) ++end;
+      while (end != run_end && end->second.t0 - std::prev(end)->second.t1 < far_t) ++end;
       auto mid = *(it + (end - it - 1) / 2);
       // 在双方的端点处接触时直接使用端点
       for (; it != end; ++it) {
-- 
2.43.0


From 4611417d20e9a7cfe5c0e50d6f66386c9543f076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:07 +0000
Subject: [PATCH 37/37] fix: pieces of one line that meet or overlap up to
 rounding have no stray crossing

---
 src/src/rmath.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index dcae3c7..bb41dc3 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -98,11 +98,16 @@ namespace rmath
 
     // 容许的计算误差
     constexpr double t_err = 1e-12;
+    // 坐标本身的舍入误差，线段越短对方向的影响越大
+    double c_err = 0;
+    for (auto& p : { p0, p1, p2, p3 }) c_err = std::max({ c_err, std::abs(p.x), std::abs(p.y) });
+    c_err *= 4 * std::numeric_limits<double>::epsilon();
     const double denominator = a.y * b.x - a.x * b.y;
-    if (std::abs(denominator) <= t_err * a.dist() * b.dist() || !std::isfinite(denominator))
+    if (std::abs(denominator) <= t_err * a.dist() * b.dist() + c_err * (a.dist() + b.dist()) || !std::isfinite(denominator))
     {
-      // 此时平行
-      if (dist2_point_line(p0, p2, p3) <= t_err * t_err * (a.dist2() + b.dist2() + c.dist2()))
+      // 此时平行，短线段到长线段所在直线的距离决定是否共线
+      const double dist2 = a.dist2() < b.dist2() ? dist2_point_line(p0, p2, p3) : dist2_point_line(p2, p0, p1);
+      if (dist2 <= t_err * t_err * (a.dist2() + b.dist2() + c.dist2()) + c_err * c_err)
       {
         // 此时共线，在跨度最大的轴上比较，严格位于对方内部的端点最多有 2 个
         const rect r = rect::from({ p0, p1, p2, p3 });
@@ -128,6 +133,19 @@ namespace rmath
       return res;
     }
 
+    // 不平行且有公共端点时，交点就是公共端点，夹角很小时计算出的交点会偏离端点
+    const auto at_end = [&](const vec2& p, const vec2& q, double t0, double t1) {
+      if (res.count == 0 && p == q) {
+        res.count = 1;
+        res.data[0] = { p, t0, t1 };
+      }
+    };
+    at_end(p0, p2, 0, 0);
+    at_end(p0, p3, 0, 1);
+    at_end(p1, p2, 1, 0);
+    at_end(p1, p3, 1, 1);
+    if (res.count) return res;
+
     const double na = (b.y * c.x - b.x * c.y) / denominator;
     const double nb = (a.x * c.y - a.y * c.x) / denominator;
 
-- 
2.43.0

