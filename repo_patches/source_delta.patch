From 602772d19ca641a3bf77b53f44afd610044c97a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:06 +0000
Subject: [PATCH 1/7] fix: report data lost at flush or close, or on a stream
 that takes nothing, when saving

---
 src/Curve/Curve.cpp     | 7 ++++++-
 src/Surface/Surface.cpp | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/Curve/Curve.cpp b/src/Curve/Curve.cpp
index fd0b05c..fd9279e 100644
--- a/src/Curve/Curve.cpp
+++ b/src/Curve/Curve.cpp
@@ -218,6 +218,11 @@ void Curve::SaveToFile(const std::string& filename, bool binary_mode) const
     }
 
     SaveToFile(file, binary_mode);
+    file.close();
+    if (file.fail())
+    {
+        throw std::runtime_error("Failed to write file: " + filename);
+    }
 }
 
 void Curve::SaveToFile(std::ostream& os, bool binary_mode) const
@@ -273,7 +278,7 @@ void Curve::SaveToFile(std::ostream& os, bool binary_mode) const
         }
     }
 
-    if (os.fail())
+    if (!os.good())
     {
         throw std::runtime_error("Failed to write data to stream.");
     }
diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index d34bb00..527f8de 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -275,6 +275,11 @@ void Surface::SaveToFile(const std::string& filename, bool binary_mode) const
     }
 
     SaveToFile(file, binary_mode);
+    file.close();
+    if (file.fail())
+    {
+        throw std::runtime_error("Failed to write file: " + filename);
+    }
 }
 
 
@@ -361,7 +366,7 @@ void Surface::SaveToFile(std::ostream& os, bool binary_mode) const
         }
     }
 
-    if (os.fail())
+    if (!os.good())
     {
         throw std::runtime_error("Failed to write data to stream.");
     }
-- 
2.43.0


From cbf6517cf782d98d750f9086f59804c720b73b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:06 +0000
Subject: [PATCH 2/7] fix: do not take a failing source, or memory running out
 while splitting a line, for the end of the data

---
 src/Curve/Curve.cpp     | 13 +++++++++++++
 src/Surface/Surface.cpp | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/src/Curve/Curve.cpp b/src/Curve/Curve.cpp
index fd9279e..6f8d41c 100644
--- a/src/Curve/Curve.cpp
+++ b/src/Curve/Curve.cpp
@@ -128,6 +128,10 @@ Curve& Curve::LoadFromFile(std::istream& is)
                         Knots.Values().push_back(knot);
                     }
                 }
+                if (ss.bad())
+                {
+                    throw std::runtime_error("Failed to split line: " + l);
+                }
             }
         }
         else if (key == "ControlPoints")
@@ -146,6 +150,10 @@ Curve& Curve::LoadFromFile(std::istream& is)
                         ControlPoints.push_back(vec);
                     }
                 }
+                if (ss.bad())
+                {
+                    throw std::runtime_error("Failed to split line: " + l);
+                }
             }
         }
         else
@@ -192,6 +200,11 @@ Curve& Curve::LoadFromFile(std::istream& is)
         }
     }
 
+    if (is.bad())
+    {
+        throw std::runtime_error("Failed to read from stream.");
+    }
+
     // Process the last key
     if (!current_key.empty())
     {
diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index 527f8de..0739fc8 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -146,6 +146,10 @@ Surface& Surface::LoadFromFile(std::istream& is)
                             KnotsU.Values().push_back(knot);
                         }
                     }
+                    if (ss.bad())
+                    {
+                        throw std::runtime_error("Failed to split line: " + l);
+                    }
                 }
             }
             else if (key == "KnotsV")
@@ -169,6 +173,10 @@ Surface& Surface::LoadFromFile(std::istream& is)
                             KnotsV.Values().push_back(knot);
                         }
                     }
+                    if (ss.bad())
+                    {
+                        throw std::runtime_error("Failed to split line: " + l);
+                    }
                 }
             }
             else if (key == "ControlPoints")
@@ -248,6 +256,11 @@ Surface& Surface::LoadFromFile(std::istream& is)
             }
         }
 
+        if (is.bad())
+        {
+            throw std::runtime_error("Failed to read from stream.");
+        }
+
         // Process the last key
         if (!current_key.empty())
         {
-- 
2.43.0


From 342cee3d00f05d70c297bee03afb2e4c6bc46a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:06 +0000
Subject: [PATCH 3/7] fix: a failed load leaves the object unchanged, a
 successful one replaces all of it

---
 include/libnurbs/Curve/Curve.hpp     |  2 ++
 include/libnurbs/Surface/Surface.hpp |  2 ++
 src/Curve/Curve.cpp                  | 12 ++++++++++--
 src/Surface/Surface.cpp              | 10 +++++++++-
 4 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/include/libnurbs/Curve/Curve.hpp b/include/libnurbs/Curve/Curve.hpp
index ed992d6..9e0c2b4 100644
--- a/include/libnurbs/Curve/Curve.hpp
+++ b/include/libnurbs/Curve/Curve.hpp
@@ -69,6 +69,8 @@ namespace libnurbs
         BoundingBox GetBoundingBox(Numeric epsilon = 1e-3) const;
 
     private:
+        void ReadFrom(std::istream& is);
+
         [[nodiscard]] vector<Vec4> HomogeneousDerivative(Numeric x, int order) const;
     };
 }
diff --git a/include/libnurbs/Surface/Surface.hpp b/include/libnurbs/Surface/Surface.hpp
index 3954bee..9404218 100644
--- a/include/libnurbs/Surface/Surface.hpp
+++ b/include/libnurbs/Surface/Surface.hpp
@@ -101,6 +101,8 @@ namespace libnurbs
         [[nodiscard]] Surface AlignParameterDomain(AlignAxis u_axis, AlignAxis v_axis);
 
     private:
+        void ReadFrom(std::istream& is);
+
         [[nodiscard]] Grid<Vec4> HomogeneousDerivative(Numeric u, Numeric v, int order_u, int order_v) const;
     };
 }
diff --git a/src/Curve/Curve.cpp b/src/Curve/Curve.cpp
index 6f8d41c..e44b8c8 100644
--- a/src/Curve/Curve.cpp
+++ b/src/Curve/Curve.cpp
@@ -27,6 +27,15 @@ Curve& Curve::LoadFromFile(const string& filename)
 }
 
 Curve& Curve::LoadFromFile(std::istream& is)
+{
+    // Read into a separate object: a failed load leaves this one unchanged, a successful one replaces all of it.
+    Curve loaded;
+    loaded.ReadFrom(is);
+    *this = std::move(loaded);
+    return *this;
+}
+
+void Curve::ReadFrom(std::istream& is)
 {
     // Read header line
     std::string header_line;
@@ -84,7 +93,7 @@ Curve& Curve::LoadFromFile(std::istream& is)
         {
             Utils::ReadVec4FromStream(ControlPoints[i], is);
         }
-        return *this;
+        return;
     }
 
     // TXT mode
@@ -210,7 +219,6 @@ Curve& Curve::LoadFromFile(std::istream& is)
     {
         process_key(current_key, content_lines);
     }
-    return *this;
 }
 
 void Curve::SaveToFile(const std::string& filename, bool binary_mode) const
diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index 0739fc8..1ffe90d 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -23,6 +23,15 @@ Surface& Surface::LoadFromFile(const std::string& filename)
 }
 
 Surface& Surface::LoadFromFile(std::istream& is)
+{
+    // Read into a separate object: a failed load leaves this one unchanged, a successful one replaces all of it.
+    Surface loaded;
+    loaded.ReadFrom(is);
+    *this = std::move(loaded);
+    return *this;
+}
+
+void Surface::ReadFrom(std::istream& is)
 {
     // Read header line
     std::string header_line;
@@ -267,7 +276,6 @@ Surface& Surface::LoadFromFile(std::istream& is)
             process_key(current_key, content_lines);
         }
     }
-    return *this;
 }
 
 void Surface::SaveToFile(const std::string& filename, bool binary_mode) const
-- 
2.43.0


From 573aba2d526446de61a4694995d09ca1a2d86617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:06 +0000
Subject: [PATCH 4/7] fix: refuse a text file with missing sections

---
 src/Curve/Curve.cpp     |  9 +++++++++
 src/Surface/Surface.cpp | 13 +++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/Curve/Curve.cpp b/src/Curve/Curve.cpp
index e44b8c8..7ae9ac2 100644
--- a/src/Curve/Curve.cpp
+++ b/src/Curve/Curve.cpp
@@ -100,11 +100,13 @@ void Curve::ReadFrom(std::istream& is)
     std::string line;
     std::string current_key;
     vector<std::string> content_lines;
+    bool has_degree = false, has_knots = false, has_control_points = false;
 
     auto process_key = [&](const std::string& key, const vector<std::string>& lines)
     {
         if (key == "Degree")
         {
+            has_degree = true;
             if (lines.size() != 1)
             {
                 throw std::runtime_error("Degree should have exactly one value line.");
@@ -118,6 +120,7 @@ void Curve::ReadFrom(std::istream& is)
         }
         else if (key == "Knots")
         {
+            has_knots = true;
             for (const auto& l : lines)
             {
                 std::stringstream ss(l);
@@ -145,6 +148,7 @@ void Curve::ReadFrom(std::istream& is)
         }
         else if (key == "ControlPoints")
         {
+            has_control_points = true;
             for (const auto& l : lines)
             {
                 std::stringstream ss(l);
@@ -219,6 +223,11 @@ void Curve::ReadFrom(std::istream& is)
     {
         process_key(current_key, content_lines);
     }
+
+    if (!has_degree || !has_knots || !has_control_points)
+    {
+        throw std::runtime_error("Degree, Knots or ControlPoints section is missing.");
+    }
 }
 
 void Curve::SaveToFile(const std::string& filename, bool binary_mode) const
diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index 1ffe90d..562e6e6 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -105,11 +105,15 @@ void Surface::ReadFrom(std::istream& is)
         std::string line;
         std::string current_key;
         std::vector<std::string> content_lines;
+        bool has_degree_u = false, has_degree_v = false;
+        bool has_knots_u = false, has_knots_v = false;
+        bool has_control_points = false;
 
         auto process_key = [&](const std::string& key, const std::vector<std::string>& lines)
         {
             if (key == "DegreeU")
             {
+                has_degree_u = true;
                 if (lines.size() != 1)
                 {
                     throw std::runtime_error("DegreeU should have exactly one value line.");
@@ -123,6 +127,7 @@ void Surface::ReadFrom(std::istream& is)
             }
             else if (key == "DegreeV")
             {
+                has_degree_v = true;
                 if (lines.size() != 1)
                 {
                     throw std::runtime_error("DegreeV should have exactly one value line.");
@@ -136,6 +141,7 @@ void Surface::ReadFrom(std::istream& is)
             }
             else if (key == "KnotsU")
             {
+                has_knots_u = true;
                 for (const auto& l : lines)
                 {
                     std::stringstream ss(l);
@@ -163,6 +169,7 @@ void Surface::ReadFrom(std::istream& is)
             }
             else if (key == "KnotsV")
             {
+                has_knots_v = true;
                 for (const auto& l : lines)
                 {
                     std::stringstream ss(l);
@@ -190,6 +197,7 @@ void Surface::ReadFrom(std::istream& is)
             }
             else if (key == "ControlPoints")
             {
+                has_control_points = true;
                 // Expecting first line to contain UCount and VCount
                 if (lines.empty())
                 {
@@ -275,6 +283,11 @@ void Surface::ReadFrom(std::istream& is)
         {
             process_key(current_key, content_lines);
         }
+
+        if (!has_degree_u || !has_degree_v || !has_knots_u || !has_knots_v || !has_control_points)
+        {
+            throw std::runtime_error("A degree, knot or control point section is missing.");
+        }
     }
 }
 
-- 
2.43.0


From ebc35dd0898fe9f1313c04c55f7224bf37692e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:16 +0000
Subject: [PATCH 5/7] fix: damaged counts neither overflow the grid size nor
 allocate more than the data warrants

---
 src/Curve/Curve.cpp         |  6 ++++--
 src/Surface/Surface.cpp     | 15 +++++++++++++--
 src/Utils/Serialization.cpp | 17 +++++++++++++----
 3 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/Curve/Curve.cpp b/src/Curve/Curve.cpp
index 7ae9ac2..91caffc 100644
--- a/src/Curve/Curve.cpp
+++ b/src/Curve/Curve.cpp
@@ -88,10 +88,12 @@ void Curve::ReadFrom(std::istream& is)
         {
             throw std::runtime_error("Failed to read ControlPoints count.");
         }
-        ControlPoints.resize(cp_count);
+        ControlPoints.clear();
         for (int i = 0; i < cp_count; ++i)
         {
-            Utils::ReadVec4FromStream(ControlPoints[i], is);
+            Vec4 point;
+            Utils::ReadVec4FromStream(point, is);
+            ControlPoints.push_back(point);
         }
         return;
     }
diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index 562e6e6..e6c2bd5 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -92,11 +92,17 @@ void Surface::ReadFrom(std::istream& is)
         }
 
         // Read control points
+        if (ControlPoints.UCount > std::numeric_limits<int>::max() / ControlPoints.VCount)
+        {
+            throw std::runtime_error("Control point grid is too large.");
+        }
         int cp_count = ControlPoints.UCount * ControlPoints.VCount;
-        ControlPoints.Values.resize(cp_count);
+        ControlPoints.Values.clear();
         for (int i = 0; i < cp_count; ++i)
         {
-            Utils::ReadVec4FromStream(ControlPoints.Values[i], is);
+            Vec4 point;
+            Utils::ReadVec4FromStream(point, is);
+            ControlPoints.Values.push_back(point);
         }
     }
     else
@@ -210,6 +216,11 @@ void Surface::ReadFrom(std::istream& is)
                     throw std::runtime_error("Invalid control point grid dimensions.");
                 }
 
+                if (ControlPoints.UCount > std::numeric_limits<int>::max() / ControlPoints.VCount)
+                {
+                    throw std::runtime_error("Control point grid is too large.");
+                }
+
                 // Read control points
                 int expected_cp_count = ControlPoints.UCount * ControlPoints.VCount;
                 if (static_cast<int>(lines.size() - 1) != expected_cp_count)
diff --git a/src/Utils/Serialization.cpp b/src/Utils/Serialization.cpp
index d0b31cf..805c588 100644
--- a/src/Utils/Serialization.cpp
+++ b/src/Utils/Serialization.cpp
@@ -12,11 +12,20 @@ namespace libnurbs::Utils
         {
             throw std::runtime_error("Failed to read KnotVector count from binary stream.");
         }
-        knot_vector.Values().resize(count);
-        is.read(reinterpret_cast<char*>(knot_vector.Values().data()), sizeof(Numeric) * count);
-        if (is.fail())
+        // Read in pieces: the count may be damaged and ask for far more memory than there is data.
+        constexpr int piece = 4096;
+        auto& values = knot_vector.Values();
+        values.clear();
+        for (int done = 0; done < count;)
         {
-            throw std::runtime_error("Failed to read KnotVector data from binary stream.");
+            const int n = std::min(piece, count - done);
+            values.resize(done + n);
+            is.read(reinterpret_cast<char*>(values.data() + done), sizeof(Numeric) * n);
+            if (is.fail())
+            {
+                throw std::runtime_error("Failed to read KnotVector data from binary stream.");
+            }
+            done += n;
         }
     }
 
-- 
2.43.0


From 01ae5b6da7f3aeb76d1cd7bb114705d29862dfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:16 +0000
Subject: [PATCH 6/7] fix: files do not depend on the locale or on the
 formatting state of the stream

---
 include/libnurbs/Utils/Serialization.hpp | 35 ++++++++++++++++++++++++
 src/Curve/Curve.cpp                      |  4 +++
 src/Surface/Surface.cpp                  |  7 +++++
 src/Utils/Serialization.cpp              |  1 +
 4 files changed, 47 insertions(+)

diff --git a/include/libnurbs/Utils/Serialization.hpp b/include/libnurbs/Utils/Serialization.hpp
index 9936245..5dd5d30 100644
--- a/include/libnurbs/Utils/Serialization.hpp
+++ b/include/libnurbs/Utils/Serialization.hpp
@@ -1,4 +1,6 @@
 #pragma once
+#include <locale>
+#include <ostream>
 #include "libnurbs/Core/KnotVector.hpp"
 
 namespace libnurbs::Utils
@@ -15,4 +17,37 @@ namespace libnurbs::Utils
 
 
     void TrimString(string& str);
+
+    // Gives a stream the default formatting and the classic locale, and gives it back its own at the end of the scope.
+    class StreamFormatGuard
+    {
+    private:
+        std::ostream& m_Stream;
+        std::ios_base::fmtflags m_Flags;
+        std::streamsize m_Precision;
+        char m_Fill;
+        std::locale m_Locale;
+
+    public:
+        explicit StreamFormatGuard(std::ostream& os)
+            : m_Stream(os), m_Flags(os.flags()), m_Precision(os.precision()), m_Fill(os.fill()), m_Locale(os.getloc())
+        {
+            os.flags(std::ios_base::dec | std::ios_base::skipws | (m_Flags & std::ios_base::unitbuf));
+            os.fill(' ');
+            os.width(0);
+            // the formatting only, not the conversions of the stream buffer
+            os.std::ios_base::imbue(std::locale::classic());
+        }
+
+        ~StreamFormatGuard()
+        {
+            m_Stream.flags(m_Flags);
+            m_Stream.precision(m_Precision);
+            m_Stream.fill(m_Fill);
+            m_Stream.std::ios_base::imbue(m_Locale);
+        }
+
+        StreamFormatGuard(const StreamFormatGuard&) = delete;
+        StreamFormatGuard& operator=(const StreamFormatGuard&) = delete;
+    };
 }
diff --git a/src/Curve/Curve.cpp b/src/Curve/Curve.cpp
index 91caffc..7dd21b4 100644
--- a/src/Curve/Curve.cpp
+++ b/src/Curve/Curve.cpp
@@ -114,6 +114,7 @@ void Curve::ReadFrom(std::istream& is)
                 throw std::runtime_error("Degree should have exactly one value line.");
             }
             std::stringstream ss(lines[0]);
+            ss.imbue(std::locale::classic());
             ss >> Degree;
             if (ss.fail())
             {
@@ -134,6 +135,7 @@ void Curve::ReadFrom(std::istream& is)
                     {
                         Numeric knot;
                         std::stringstream num_stream(token);
+                        num_stream.imbue(std::locale::classic());
                         num_stream >> knot;
                         if (num_stream.fail())
                         {
@@ -259,6 +261,8 @@ void Curve::SaveToFile(const std::string& filename, bool binary_mode) const
 
 void Curve::SaveToFile(std::ostream& os, bool binary_mode) const
 {
+    Utils::StreamFormatGuard format_guard(os);
+
     // Write header
     os << LIBNURBS_MAGIC << " " << (binary_mode ? "BIN" : "TXT") << " CURVE\n";
 
diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index e6c2bd5..71d4651 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -125,6 +125,7 @@ void Surface::ReadFrom(std::istream& is)
                     throw std::runtime_error("DegreeU should have exactly one value line.");
                 }
                 std::stringstream ss(lines[0]);
+                ss.imbue(std::locale::classic());
                 ss >> DegreeU;
                 if (ss.fail())
                 {
@@ -139,6 +140,7 @@ void Surface::ReadFrom(std::istream& is)
                     throw std::runtime_error("DegreeV should have exactly one value line.");
                 }
                 std::stringstream ss(lines[0]);
+                ss.imbue(std::locale::classic());
                 ss >> DegreeV;
                 if (ss.fail())
                 {
@@ -159,6 +161,7 @@ void Surface::ReadFrom(std::istream& is)
                         {
                             Numeric knot;
                             std::stringstream num_stream(token);
+                            num_stream.imbue(std::locale::classic());
                             num_stream >> knot;
                             if (num_stream.fail())
                             {
@@ -187,6 +190,7 @@ void Surface::ReadFrom(std::istream& is)
                         {
                             Numeric knot;
                             std::stringstream num_stream(token);
+                            num_stream.imbue(std::locale::classic());
                             num_stream >> knot;
                             if (num_stream.fail())
                             {
@@ -210,6 +214,7 @@ void Surface::ReadFrom(std::istream& is)
                     throw std::runtime_error("ControlPoints section missing grid dimensions.");
                 }
                 std::stringstream ss_dims(lines[0]);
+                ss_dims.imbue(std::locale::classic());
                 ss_dims >> ControlPoints.UCount >> ControlPoints.VCount;
                 if (ss_dims.fail() || ControlPoints.UCount <= 0 || ControlPoints.VCount <= 0)
                 {
@@ -330,6 +335,8 @@ void Surface::SaveToFile(const std::string& filename, bool binary_mode) const
 
 void Surface::SaveToFile(std::ostream& os, bool binary_mode) const
 {
+    Utils::StreamFormatGuard format_guard(os);
+
     // Write header
     os << LIBNURBS_MAGIC << " " << (binary_mode ? "BIN" : "TXT") << " SURFACE\n";
 
diff --git a/src/Utils/Serialization.cpp b/src/Utils/Serialization.cpp
index 805c588..2611b8c 100644
--- a/src/Utils/Serialization.cpp
+++ b/src/Utils/Serialization.cpp
@@ -41,6 +41,7 @@ namespace libnurbs::Utils
     void ReadVec4FromText(Vec4& vec, const std::string& text)
     {
         std::stringstream ss(text);
+        ss.imbue(std::locale::classic());
         ss >> vec.x() >> vec.y() >> vec.z() >> vec.w();
         if (ss.fail())
         {
-- 
2.43.0


From 342bfbb633c19f3746e55f4f5e0569941388204a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:16 +0000
Subject: [PATCH 7/7] fix: Grid::InsertU leaves the grid unchanged when memory
 runs out, and accepts a value of the grid itself

---
 include/libnurbs/Core/Grid.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/libnurbs/Core/Grid.hpp b/include/libnurbs/Core/Grid.hpp
index 88b62ac..e6a48a6 100644
--- a/include/libnurbs/Core/Grid.hpp
+++ b/include/libnurbs/Core/Grid.hpp
@@ -109,9 +109,10 @@ namespace libnurbs
         void InsertU(int u_index, const T& default_value = T())
         {
             assert(u_index >= 0 && u_index < UCount);
+            const T value = default_value; // may refer to an element of this grid
             int float_idx = UCount * VCount - 1;
+            Values.resize((UCount + 1) * VCount);
             UCount += 1;
-            Values.resize(UCount * VCount);
 
             for (int it_v = VCount - 1; it_v >= 0; --it_v)
             {
@@ -127,7 +128,7 @@ namespace libnurbs
                 {
                     Values[i] = std::move(Values[float_idx--]);
                 }
-                Values[insertion_idx] = default_value;
+                Values[insertion_idx] = value;
             }
         }
     };
-- 
2.43.0

