From dc5ec45daee3b77a35a88c06e21ff59d4847d6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:27 +0000
Subject: [PATCH 01/10] fix: size_from_data_length accepts an empty coefficient
 array and asserts the opposite without exceptions

---
 include/hyperjet/hyperjet.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 250d204..b91efb0 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -69,14 +69,14 @@ namespace hyperjet
 
             if constexpr (throw_exceptions())
             {
-                if (data_length_from_size(s) != n)
+                if (s < 0 || data_length_from_size(s) != n)
                 {
                     throw std::runtime_error("Invalid length");
                 }
             }
             else
             {
-                assert(data_length_from_size(s) == n == 0 && "Invalid length");
+                assert(s >= 0 && data_length_from_size(s) == n && "Invalid length");
             }
 
             return s;
-- 
2.43.0


From 3b386fb6a0cace062dd740a0a94651a26df75dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:27 +0000
Subject: [PATCH 02/10] fix: dynamic scalar constructors claim one variable but
 store only the value

---
 include/hyperjet/hyperjet.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index b91efb0..fc34540 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -318,7 +318,7 @@ namespace hyperjet
 
             if constexpr (is_dynamic())
             {
-                m_size = 1;
+                m_size = 0;
                 m_data = Data(1);
             }
             else
@@ -333,7 +333,7 @@ namespace hyperjet
 
             if constexpr (is_dynamic())
             {
-                m_size = 1;
+                m_size = 0;
                 m_data = Data(1);
             }
             else
-- 
2.43.0


From 718206062fb988c1e4743c073cfb306f43e04fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:27 +0000
Subject: [PATCH 03/10] fix: initializer list constructor writes outside of the
 coefficient storage

---
 include/hyperjet/hyperjet.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index fc34540..c21ad4c 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -362,6 +362,13 @@ namespace hyperjet
         {
             static_assert(0 < order() && order() <= 2);
 
+            check_valid_size(m_size);
+
+            if constexpr (is_dynamic())
+            {
+                m_data.resize(data.size());
+            }
+
             std::copy(data.begin(), data.end(), m_data.begin());
         }
 
-- 
2.43.0


From 015971f2e7479517ce070f6c19ab6b9f0cc7bda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:27 +0000
Subject: [PATCH 04/10] fix: reject negative sizes of dynamic scalars

---
 include/hyperjet/hyperjet.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index c21ad4c..23f6c32 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -429,6 +429,7 @@ namespace hyperjet
         void resize(const index size)
         {
             static_assert(is_dynamic());
+            check_valid_size(size);
             m_size = size;
             const index n = data_length_from_size(size);
             m_data.resize(n);
@@ -573,6 +574,7 @@ namespace hyperjet
         {
             if constexpr (is_dynamic())
             {
+                check_valid_size(size);
                 const index n = data_length_from_size(size);
                 const Data data(n);
                 Type result(data, size);
@@ -606,6 +608,7 @@ namespace hyperjet
         {
             if constexpr (is_dynamic())
             {
+                check_valid_size(size);
                 const Data data(data_length_from_size(size), 0);
                 Type result(data, size);
                 return result;
-- 
2.43.0


From 470789d47123053f382fb70bd6c8b8e70639b20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:27 +0000
Subject: [PATCH 05/10] fix: padding to a smaller size writes outside of the
 coefficient storage

---
 include/hyperjet/hyperjet.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 23f6c32..a2fc169 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -133,6 +133,21 @@ namespace hyperjet
             }
         }
 
+        HYPERJET_INLINE static void check_padded_size(const index size, const index new_size)
+        {
+            if constexpr (throw_exceptions())
+            {
+                if (new_size < size)
+                {
+                    throw std::runtime_error("Padded size is too small");
+                }
+            }
+            else
+            {
+                assert(new_size >= size && "Padded size is too small");
+            }
+        }
+
         struct Zero
         {
             HYPERJET_INLINE Zero operator*(const Scalar) const
@@ -439,6 +454,8 @@ namespace hyperjet
         {
             static_assert(is_dynamic());
 
+            check_padded_size(size(), new_size);
+
             Type result = empty(new_size);
 
             const index head = new_size - size();
@@ -486,6 +503,8 @@ namespace hyperjet
         {
             static_assert(is_dynamic());
 
+            check_padded_size(size(), new_size);
+
             Type result = empty(new_size);
 
             const index tail = new_size - size();
-- 
2.43.0


From fde841008f346f48c8dd70d52e539299b7a03f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:27 +0000
Subject: [PATCH 06/10] fix: atan2 and the three argument hypot do not check
 the sizes of their arguments

---
 include/hyperjet/hyperjet.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index a2fc169..2cdb0a9 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -1442,6 +1442,8 @@ namespace hyperjet
         {
             using std::atan2;
 
+            check_equal_size(size(), b.size());
+
             Type result = Type::empty(size());
 
             const Scalar tmp = this->f() * this->f() + b.f() * b.f();
@@ -1484,6 +1486,7 @@ namespace hyperjet
             using std::hypot;
 
             check_equal_size(a.size(), b.size());
+            check_equal_size(a.size(), c.size());
 
             Type result = Type::empty(a.size());
 
-- 
2.43.0


From fdfbd3556624b1025dfc3be7ae92f50c3fa4a498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:27 +0000
Subject: [PATCH 07/10] fix: in-place product and quotient of a scalar with
 itself

---
 include/hyperjet/hyperjet.h | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 2cdb0a9..6a8fb63 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -1168,6 +1168,12 @@ namespace hyperjet
         {
             check_equal_size(size(), b.size());
 
+            if (this == &b)
+            {
+                const Type b_copy = b;
+                return operator*=(b_copy);
+            }
+
             const Data a_m_data = m_data;
 
             const Scalar da = b.f();
@@ -1198,9 +1204,11 @@ namespace hyperjet
 
         Type &operator*=(const Scalar &b)
         {
+            const Scalar factor = b;
+
             for (index i = 0; i < length(m_data); i++)
             {
-                m_data[i] = m_data[i] * b;
+                m_data[i] = m_data[i] * factor;
             }
 
             return *this;
@@ -1256,6 +1264,12 @@ namespace hyperjet
 
             check_equal_size(size(), b.size());
 
+            if (this == &b)
+            {
+                const Type b_copy = b;
+                return operator/=(b_copy);
+            }
+
             const Data a_m_data = m_data;
 
             const auto f = a_m_data[0] / b.f();
@@ -2284,6 +2298,12 @@ namespace hyperjet
 
         Type &operator*=(const Type &b)
         {
+            if (this == &b)
+            {
+                const Type b_copy = b;
+                return operator*=(b_copy);
+            }
+
             const Scalar da = b.m_f;
             const Scalar db = m_f;
 
@@ -2342,6 +2362,12 @@ namespace hyperjet
         {
             using std::pow;
 
+            if (this == &b)
+            {
+                const Type b_copy = b;
+                return operator/=(b_copy);
+            }
+
             const auto da = 1 / b.m_f;
             const auto db = -m_f / pow(b.m_f, 2);
 
-- 
2.43.0


From 7d9f1f7b4c790d92fc14317bccf95120ed616816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:27 +0000
Subject: [PATCH 08/10] fix: SScalar::eval compares iterators of different
 containers

---
 include/hyperjet/hyperjet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 6a8fb63..85d5809 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -2137,7 +2137,7 @@ namespace hyperjet
             {
                 const auto it = d.find(coef.first);
 
-                if (it == m_d.end())
+                if (it == d.end())
                     continue;
 
                 r += coef.second * it->second;
-- 
2.43.0


From d55c7a775725a8d57f8b06a36a1bb752ec50f22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:27 +0000
Subject: [PATCH 09/10] fix: sizes of the arguments of eval, set_hm and
 from_arrays are not checked

---
 include/hyperjet/hyperjet.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 85d5809..b106379 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -885,6 +885,9 @@ namespace hyperjet
 
         void set_hm(const Eigen::Ref<const Matrix> &value)
         {
+            check_equal_size(size(), value.rows());
+            check_equal_size(size(), value.cols());
+
             index it = 0;
 
             for (index i = 0; i < size(); i++)
@@ -935,6 +938,8 @@ namespace hyperjet
 
         Scalar eval(typename std::conditional < TSize == Dynamic, std::vector<Scalar>, std::array<Scalar, TSize<0 ? 0 : TSize>>::type d) const
         {
+            check_equal_size(size(), length(d));
+
             Scalar result = f();
 
             for (index i = 0; i < size(); i++)
-- 
2.43.0


From 88b84974b2e221c4c2473294b48656573c6841c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:27 +0000
Subject: [PATCH 10/10] fix: mutable gradient access accepts negative indices

---
 include/hyperjet/hyperjet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index b106379..f747027 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -750,7 +750,7 @@ namespace hyperjet
 
         Scalar &g(const index i)
         {
-            assert(i < size());
+            assert(0 <= i && i < size());
 
             return m_data[1 + i];
         }
-- 
2.43.0

