From 12fc3c6478311b68a10095e74891bd69d87e4852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 01/60] fix: read node and side sets that have no distribution
 factors

---
 src/nimble_genesis_mesh.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nimble_genesis_mesh.cc b/src/nimble_genesis_mesh.cc
index a31a3bd..1a0c74c 100644
--- a/src/nimble_genesis_mesh.cc
+++ b/src/nimble_genesis_mesh.cc
@@ -176,7 +176,7 @@ GenesisMesh::ReadFile(std::string file_name)
     retval = ex_get_set_param(exodus_file_id, EX_NODE_SET, id, &num_nodes_in_ns, &num_dist_factors_in_ns);
     if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_set_param");
     node_sets_[id] = std::vector<int>();
-    if (num_nodes_in_ns > 0 && num_dist_factors_in_ns == num_nodes_in_ns) {
+    if (num_nodes_in_ns > 0) {
       node_sets_[id] = std::vector<int>(num_nodes_in_ns);
       retval         = ex_get_set(exodus_file_id, EX_NODE_SET, id, &node_sets_[id][0], NULL);
       if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_set");
@@ -184,7 +184,7 @@ GenesisMesh::ReadFile(std::string file_name)
       for (unsigned int j = 0; j < node_sets_[id].size(); j++) { node_sets_[id][j] -= 1; }
     }
     ns_distribution_factors_[id] = std::vector<double>();
-    if (num_nodes_in_ns > 0) {
+    if (num_dist_factors_in_ns > 0) {
       ns_distribution_factors_[id] = std::vector<double>(num_dist_factors_in_ns);
       retval = ex_get_set_dist_fact(exodus_file_id, EX_NODE_SET, id, &ns_distribution_factors_[id][0]);
       if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_set_dist_fact");
@@ -217,7 +217,7 @@ GenesisMesh::ReadFile(std::string file_name)
     retval = ex_get_set_param(exodus_file_id, EX_SIDE_SET, id, &num_nodes_in_ss, &num_dist_factors_in_ss);
     if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_set_param");
     side_sets_[id] = std::vector<int>();
-    if (num_nodes_in_ss > 0 && num_dist_factors_in_ss == num_nodes_in_ss) {
+    if (num_nodes_in_ss > 0) {
       side_sets_[id] = std::vector<int>(num_nodes_in_ss);
       retval         = ex_get_set(exodus_file_id, EX_SIDE_SET, id, &side_sets_[id][0], NULL);
       if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_set");
@@ -225,7 +225,7 @@ GenesisMesh::ReadFile(std::string file_name)
       for (unsigned int j = 0; j < side_sets_[id].size(); j++) { side_sets_[id][j] -= 1; }
     }
     ss_distribution_factors_[id] = std::vector<double>();
-    if (num_nodes_in_ss > 0) {
+    if (num_dist_factors_in_ss > 0) {
       ss_distribution_factors_[id] = std::vector<double>(num_dist_factors_in_ss);
       retval = ex_get_set_dist_fact(exodus_file_id, EX_SIDE_SET, id, &ss_distribution_factors_[id][0]);
       if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_set_dist_fact");
-- 
2.43.0


From 945d496e345b4f837255d592544d88e39787dcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 02/60] fix: evaluate prescribed velocities at the initial time
 for the initial output

---
 src/integrators/explicit_time_integrator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/integrators/explicit_time_integrator.cc b/src/integrators/explicit_time_integrator.cc
index c3bfa32..9e45e9e 100644
--- a/src/integrators/explicit_time_integrator.cc
+++ b/src/integrators/explicit_time_integrator.cc
@@ -144,7 +144,7 @@ ExplicitTimeIntegrator::Integrate()
 
   watch_simulation.push_region("BC enforcement");
   model_data.ApplyInitialConditions(data_manager);
-  model_data.ApplyKinematicConditions(data_manager, 0.0, 0.0);
+  model_data.ApplyKinematicConditions(data_manager, initial_time, initial_time);
   watch_simulation.pop_region_and_report_time();
 
   data_manager.WriteOutput(time_current);
-- 
2.43.0


From 607bf2dff7a14ded22c7e616942fe6b70cea634c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:54 +0000
Subject: [PATCH 03/60] fix: characteristic length of elements with negative
 coordinates

---
 src/nimble_element.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_element.cc b/src/nimble_element.cc
index 009ec5d..5041e54 100644
--- a/src/nimble_element.cc
+++ b/src/nimble_element.cc
@@ -227,7 +227,7 @@ HexElement::ComputeCharacteristicLength(const double* node_coords)
   double characteristic_length, distance_squared, min_distance_squared, nx, ny, nz, mx, my, mz;
   double x_min, x_max, y_min, y_max, z_min, z_max;
 
-  x_max = y_max = z_max = 0.0;
+  x_max = y_max = z_max = -std::numeric_limits<double>::max();
   min_distance_squared = x_min = y_min = z_min = std::numeric_limits<double>::max();
 
   for (int n = 0; n < num_nodes_; n++) {
-- 
2.43.0


From cd5787dbf5ed6e62ac6da7f11f19365eebc66291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:54 +0000
Subject: [PATCH 04/60] fix: report the smallest critical time step over all
 ranks

---
 src/integrators/explicit_time_integrator.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/integrators/explicit_time_integrator.cc b/src/integrators/explicit_time_integrator.cc
index 9e45e9e..19f5a03 100644
--- a/src/integrators/explicit_time_integrator.cc
+++ b/src/integrators/explicit_time_integrator.cc
@@ -123,6 +123,9 @@ ExplicitTimeIntegrator::Integrate()
   model_data.ComputeLumpedMass(data_manager);
 
   double     critical_time_step = model_data.GetCriticalTimeStep();
+#ifdef NIMBLE_HAVE_MPI
+  MPI_Allreduce(MPI_IN_PLACE, &critical_time_step, 1, MPI_DOUBLE, MPI_MIN, MPI_COMM_WORLD);
+#endif
   auto const lumped_mass        = model_data.GetScalarNodeData("lumped_mass");
 
   double initial_time = parser.InitialTime();
-- 
2.43.0


From b1c5049b71c617ba9eac77efaa38621da5d11968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 05/60] fix: reject empty conditions in expressions instead of
 reading out of bounds

---
 src/nimble_expression_parser.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nimble_expression_parser.h b/src/nimble_expression_parser.h
index 02b4274..50291c9 100644
--- a/src/nimble_expression_parser.h
+++ b/src/nimble_expression_parser.h
@@ -639,6 +639,7 @@ class EquationContext
   ParseBooleanExpression(Reader r)
   {
     ApplyNecessaryFormatting(r);
+    if (r.IsEmpty()) throw std::invalid_argument("Can't parse empty string as boolean");
     if (r == "true") return mem.New<BooleanConstant>(true);
     if (r == "false") return mem.New<BooleanConstant>(false);
 
@@ -683,7 +684,7 @@ class EquationContext
     }*/
 
     if (r << '=') {
-      if (r.first[r.pos - 1] == '=')
+      if (r.pos > 0 && r.first[r.pos - 1] == '=')
         return mem.New<GenericEqual<bool, double, double>>(
             ParseEquation(r.sub(r.pos + 1, r.length)), ParseEquation(r.sub(r.first, r.pos - 1)));
     }
-- 
2.43.0


From e7c75bb5c5575baf2414e50c27db72d6323da6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 06/60] fix: parse negated conditions and != in expressions

---
 src/nimble_expression_parser.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nimble_expression_parser.h b/src/nimble_expression_parser.h
index 50291c9..54cd6c6 100644
--- a/src/nimble_expression_parser.h
+++ b/src/nimble_expression_parser.h
@@ -655,7 +655,7 @@ class EquationContext
       return mem.New<GenericAnd<bool, bool, bool>>(
           ParseBooleanExpression(r.sub(r.first, r.pos)), ParseBooleanExpression(r.sub(r.pos + 1, r.length)));
 
-    if (r << '!') return mem.New<GenericNot<bool, bool>>(ParseBooleanExpression(r.sub(r.first + 1, r.length)));
+    if (r[0] == '!') return mem.New<GenericNot<bool, bool>>(ParseBooleanExpression(r.sub(1u, r.length)));
 
     if (r << '>') {
       if (r.first[r.pos + 1] == '=')
@@ -687,6 +687,9 @@ class EquationContext
       if (r.pos > 0 && r.first[r.pos - 1] == '=')
         return mem.New<GenericEqual<bool, double, double>>(
             ParseEquation(r.sub(r.pos + 1, r.length)), ParseEquation(r.sub(r.first, r.pos - 1)));
+      if (r.pos > 0 && r.first[r.pos - 1] == '!')
+        return mem.New<GenericInequal<bool, double, double>>(
+            ParseEquation(r.sub(r.pos + 1, r.length)), ParseEquation(r.sub(r.first, r.pos - 1)));
     }
     throw std::invalid_argument("Unable to parse \"" + r.MakeString() + "\" as boolean");
   }
-- 
2.43.0


From 5b1aadbcded4100481bd88de1401200b1d3de885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 07/60] fix: tell binary plus and minus from signs and
 exponents in expressions

---
 src/nimble_expression_parser.h | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/nimble_expression_parser.h b/src/nimble_expression_parser.h
index 54cd6c6..35c40df 100644
--- a/src/nimble_expression_parser.h
+++ b/src/nimble_expression_parser.h
@@ -581,6 +581,23 @@ class EquationContext
     }
     return 0;
   }
+  // Moves to the last c ('+' or '-') outside parentheses that is a binary operator: not a sign, and not part of the
+  // exponent of a number
+  static bool
+  FindBinaryOperator(Reader& r, char c)
+  {
+    for (r.pos = r.length - 1; r.pos > 0; r.Prev('(', ')')) {
+      if (r.first[r.pos] != c) continue;
+      unsigned int p = r.pos - 1;
+      while (p > 0 && r.first[p] == ' ') p--;
+      char const prev = r.first[p];
+      if (prev == ' ' || prev == '+' || prev == '-' || prev == '*' || prev == '/' || prev == '^') continue;
+      bool const exponent = prev == 'e' && p + 1 == r.pos && p > 0 && (IsDigit(r.first[p - 1]) || r.first[p - 1] == '.') &&
+                            IsDigit(r.first[r.pos + 1]);
+      if (!exponent) return true;
+    }
+    return false;
+  }
   RealValuedExpression*
   ParseOperation(Reader r)
   {
@@ -598,21 +615,11 @@ class EquationContext
     if (r << '%')
       return mem.New<DoubleMod>(ParseEquation(r.sub(r.first, r.pos)), ParseEquation(r.sub(r.pos + 1, r.length)));
 
-    if (r << '+')
+    if (FindBinaryOperator(r, '+'))
       return mem.New<DoubleAdd>(ParseEquation(r.sub(r.first, r.pos)), ParseEquation(r.sub(r.pos + 1, r.length)));
 
-    if (r << '-') {
-      // We need to ensure that we found a minus sign and not a value negation
-      while (r.pos > 0 && (r.first[r.pos] == '-' || r.first[r.pos] == ' ')) r.pos--;
-      if (r.pos > 0 || r.first[r.pos] != '-') {
-        char c = r.first[r.pos];
-        if (c != '*' && c != '/' && c != '^' && c != 'e' && c != '=' && c != '<' && c != '~' && c != '>') {
-          while (r.first[r.pos] != '-') r.pos++;  // Moves it back to the last minus sign
-          return mem.New<DoubleSubtract>(
-              ParseEquation(r.sub(r.first, r.pos)), ParseEquation(r.sub(r.pos + 1, r.length)));
-        }
-      }
-    }
+    if (FindBinaryOperator(r, '-'))
+      return mem.New<DoubleSubtract>(ParseEquation(r.sub(r.first, r.pos)), ParseEquation(r.sub(r.pos + 1, r.length)));
 
     if (r << '*')
       return mem.New<DoubleMultiply>(ParseEquation(r.sub(r.first, r.pos)), ParseEquation(r.sub(r.pos + 1, r.length)));
-- 
2.43.0


From 97689fddd239fa1e3b56dbb62fda59bed8d65459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 08/60] fix: exponentiation binds tighter than unary minus in
 expressions

---
 src/nimble_expression_parser.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nimble_expression_parser.h b/src/nimble_expression_parser.h
index 35c40df..9e88dc7 100644
--- a/src/nimble_expression_parser.h
+++ b/src/nimble_expression_parser.h
@@ -627,6 +627,8 @@ class EquationContext
     if (r << '/')
       return mem.New<DoubleDivide>(ParseEquation(r.sub(r.first, r.pos)), ParseEquation(r.sub(r.pos + 1, r.length)));
 
+    if (*r.first == '-') { return mem.New<GenericNeg<double, double>>(ParseEquation(r.sub(1, r.length))); }
+
     if (r >> '^') {
       RealValuedExpression* base       = ParseEquation(r.sub(r.first, r.pos));
       Reader                power_text = r.sub(r.pos + 1, r.length);
@@ -637,8 +639,6 @@ class EquationContext
         return mem.New<DoublePow>(base, ParseEquation(power_text));
     }
 
-    if (*r.first == '-') { return mem.New<GenericNeg<double, double>>(ParseEquation(r.sub(1, r.length))); }
-
     return 0;
   }
 
-- 
2.43.0


From 741687ec7a690728be7f480456099241c16ab96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 09/60] fix: accept spaces inside parentheses around a single
 term in expressions

---
 src/nimble_expression_parser.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/nimble_expression_parser.cc b/src/nimble_expression_parser.cc
index 14e65fb..ca7ff98 100644
--- a/src/nimble_expression_parser.cc
+++ b/src/nimble_expression_parser.cc
@@ -165,9 +165,13 @@ ExpressionParsing::RemoveRedundantParenthesis(ExpressionParsing::Reader& text)
 void
 ExpressionParsing::ApplyNecessaryFormatting(ExpressionParsing::Reader& text)
 {
-  if (text.IsEmpty()) return;
-  RemoveWhitespace(text);
-  RemoveRedundantParenthesis(text);
+  unsigned int previous_length = 0;
+  do {
+    if (text.IsEmpty()) return;
+    previous_length = text.length;
+    RemoveWhitespace(text);
+    RemoveRedundantParenthesis(text);
+  } while (text.length != previous_length);
 }
 
 ExpressionParsing::RealValuedExpression*
-- 
2.43.0


From c150f06cb29618ce6403ef13f7a92d5be7928a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 10/60] fix: read decks with long lines, indented comments and
 tabs, and reject lines without a key and value

---
 src/nimble_parser.cc | 40 ++++++++++++++++++----------------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/src/nimble_parser.cc b/src/nimble_parser.cc
index fd63ec9..7b70d70 100644
--- a/src/nimble_parser.cc
+++ b/src/nimble_parser.cc
@@ -196,9 +196,6 @@ Parser::Initialize()
 void
 Parser::ReadFile()
 {
-  int         max_chars_per_line = 1000;
-  std::string delimiter(" ");
-
   std::ifstream fin;
   fin.open(file_name_.c_str());
   if (!fin.good()) {
@@ -206,32 +203,31 @@ Parser::ReadFile()
     throw std::invalid_argument(msg);
   }
 
-  while (!fin.eof()) {
-    char buf[max_chars_per_line];
-    fin.getline(buf, max_chars_per_line);
-    std::string line(buf);
+  std::string const whitespace(" \t\r");
 
+  std::string line;
+  while (std::getline(fin, line)) {
     // Strip out comments (# character)
     size_t pound_pos = line.find("#");
     if (pound_pos != std::string::npos) { line = line.substr(0, pound_pos); }
     // Strip out leading and trailing whitespace
-    if (line.size() > 0) {
-      size_t start_pos = line.find_first_not_of(" \t");
-      size_t end_pos   = line.find_last_not_of(" \t");
-      line             = line.substr(start_pos, end_pos - start_pos + 1);
-    }
-
-    if (line.size() > 0) {
-      // Obtain key and value
-      // Commands are delimited with a colon
-      size_t      colon_pos = line.find(":");
-      std::string key       = line.substr(0, colon_pos);
-      key                   = key.substr(key.find_first_not_of(" "), key.find_last_not_of(" ") + 1);
-      std::string value     = line.substr(colon_pos + 1, line.size());
-      value                 = value.substr(value.find_first_not_of(" "), value.find_last_not_of(" ") + 1);
+    size_t start_pos = line.find_first_not_of(whitespace);
+    if (start_pos == std::string::npos) { continue; }
+    size_t end_pos = line.find_last_not_of(whitespace);
+    line           = line.substr(start_pos, end_pos - start_pos + 1);
 
-      ParseKeyValue(key, value);
+    // Obtain key and value
+    // Commands are delimited with a colon
+    size_t colon_pos = line.find(":");
+    size_t value_pos = colon_pos == std::string::npos ? colon_pos : line.find_first_not_of(whitespace, colon_pos + 1);
+    if (colon_pos == 0 || value_pos == std::string::npos) {
+      std::string msg = "\n**** Error in Parser::ReadFile(), expected \"key: value\" but found \"" + line + "\"\n";
+      throw std::invalid_argument(msg);
     }
+    std::string key   = line.substr(0, line.find_last_not_of(whitespace, colon_pos - 1) + 1);
+    std::string value = line.substr(value_pos);
+
+    ParseKeyValue(key, value);
   }
 }
 
-- 
2.43.0


From c1f5809c6ff93cf6ced36daf268611eed9f2a2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:13 +0000
Subject: [PATCH 11/60] fix: reject numbers that cannot be read in decks and
 material parameters

---
 src/nimble_parser.cc     | 16 +++++++++-------
 src/nimble_parser_util.h | 26 +++++++++++++++++++++-----
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/nimble_parser.cc b/src/nimble_parser.cc
index 7b70d70..5aae927 100644
--- a/src/nimble_parser.cc
+++ b/src/nimble_parser.cc
@@ -52,6 +52,8 @@
 #include <stdexcept>
 #include <string>
 
+#include "nimble_parser_util.h"
+
 namespace nimble {
 
 std::string
@@ -271,17 +273,17 @@ Parser::ParseKeyValue(const std::string& key, const std::string& value)
   } else if (key == "time integration scheme") {
     time_integration_scheme_ = value;
   } else if (key == "nonlinear solver relative tolerance") {
-    nonlinear_solver_relative_tolerance_ = std::atof(value.c_str());
+    nonlinear_solver_relative_tolerance_ = string_to_double(value);
   } else if (key == "nonlinear solver maximum iterations") {
-    nonlinear_solver_max_iterations_ = std::atoi(value.c_str());
+    nonlinear_solver_max_iterations_ = string_to_int(value);
   } else if (key == "initial time") {
-    initial_time_ = std::atof(value.c_str());
+    initial_time_ = string_to_double(value);
   } else if (key == "final time") {
-    final_time_ = std::atof(value.c_str());
+    final_time_ = string_to_double(value);
   } else if (key == "number of load steps") {
-    num_load_steps_ = std::atoi(value.c_str());
+    num_load_steps_ = string_to_int(value);
   } else if (key == "output frequency") {
-    output_frequency_ = std::atoi(value.c_str());
+    output_frequency_ = string_to_int(value);
   } else if (key == "contact") {
     contact_string_ = value;
   } else if (key == "contact backend") {
@@ -323,7 +325,7 @@ Parser::ParseKeyValue(const std::string& key, const std::string& value)
   } else if (key == "output fields") {
     output_field_string_ = value;
   } else if (key == "contact dicing") {
-    int tmp = std::atoi(value.c_str());
+    int tmp = string_to_int(value);
 #ifdef NIMBLE_HAVE_BVH
     contact_dicing_ = tmp;
 #else
diff --git a/src/nimble_parser_util.h b/src/nimble_parser_util.h
index c752d7e..d310034 100644
--- a/src/nimble_parser_util.h
+++ b/src/nimble_parser_util.h
@@ -47,6 +47,7 @@
 #include <iostream>
 #include <limits>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -86,14 +87,29 @@ tokenize_string(const std::string& s)
   return tokens;
 }
 
+/// Read a value of type T from a string that holds nothing else
+template <typename T>
+inline T
+string_to_value(const std::string& s)
+{
+  std::stringstream ss(s);
+  T                 val{};
+  if (!(ss >> val) || !(ss >> std::ws).eof()) {
+    throw std::invalid_argument("Error reading a number, unexpected value: \"" + s + "\"");
+  }
+  return val;
+}
+
 inline double
 string_to_double(const std::string& s)
 {
-  std::stringstream ss;
-  ss << s;
-  double val = std::numeric_limits<double>::max();
-  ss >> val;
-  return val;
+  return string_to_value<double>(s);
+}
+
+inline int
+string_to_int(const std::string& s)
+{
+  return string_to_value<int>(s);
 }
 
 }  // namespace nimble
-- 
2.43.0


From abcc11af32f2b22baa83f26c8fcb62c68e5b1232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:13 +0000
Subject: [PATCH 12/60] fix: reject a material parameter without a value
 instead of reading past the end

---
 src/nimble_material_factory_base.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/nimble_material_factory_base.cc b/src/nimble_material_factory_base.cc
index 673ba91..26a144b 100644
--- a/src/nimble_material_factory_base.cc
+++ b/src/nimble_material_factory_base.cc
@@ -78,6 +78,10 @@ MaterialFactoryBase::ParseMaterialParametersString(const std::string& material_p
   std::map<std::string, double>      material_double_parameters;
   for (; token != tokens_end; token += 2) {
     auto&& key = *token;
+    if (token + 1 == tokens_end) {
+      std::string errMsg = "Missing value of material parameter: '" + key + "'";
+      throw std::invalid_argument(errMsg);
+    }
     auto&& val = *(token + 1);
     if (std::find(valid_double_parameter_names.begin(), valid_double_parameter_names.end(), key) !=
         valid_double_parameter_names.end()) {
@@ -113,6 +117,10 @@ MaterialFactoryBase::ParseMaterialParamsStringToMap(const std::string& material_
   std::map<std::string, double>      material_double_parameters;
   for (; token != tokens_end; token += 2) {
     auto&& key = *token;
+    if (token + 1 == tokens_end) {
+      std::string errMsg = "Missing value of material parameter: '" + key + "'";
+      throw std::invalid_argument(errMsg);
+    }
     auto&& val = *(token + 1);
     if (std::find(valid_double_parameter_names.begin(), valid_double_parameter_names.end(), key) !=
         valid_double_parameter_names.end()) {
-- 
2.43.0


From 32089c7ad67ce660350ad4247b916466bc9f80df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:22 +0000
Subject: [PATCH 13/60] fix: reject malformed element blocks and boundary
 conditions

---
 src/nimble_boundary_condition.cc |  4 +++-
 src/nimble_parser.cc             | 15 +++++++--------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/nimble_boundary_condition.cc b/src/nimble_boundary_condition.cc
index e9166c0..fbd8e2a 100644
--- a/src/nimble_boundary_condition.cc
+++ b/src/nimble_boundary_condition.cc
@@ -111,7 +111,9 @@ BoundaryCondition::Initialize(
     expression_        = ExpressionParsing::BoundaryConditionFunctor(expression_string_);
   } else if (num_quotes == 0) {
     has_expression_ = false;
-    ss >> magnitude_;  // DJL valgrind complains about this
+    if (!(ss >> magnitude_) || !(ss >> std::ws).eof()) {
+      throw std::invalid_argument("Error processing boundary condition, expected a single number: " + bc_string);
+    }
   } else {
     throw std::invalid_argument("Error processing boundary condition, illegal number of quotes: " + bc_string);
   }
diff --git a/src/nimble_parser.cc b/src/nimble_parser.cc
index 5aae927..b62469c 100644
--- a/src/nimble_parser.cc
+++ b/src/nimble_parser.cc
@@ -160,14 +160,13 @@ IOFileNameThreadSafe(
 
 BlockProperties::BlockProperties(std::string props) : block_id_(-1)
 {
-  size_t space_pos                 = props.find(" ");
-  block_name_                      = props.substr(0, space_pos);
-  material_key_                    = props.substr(space_pos + 1, props.size());
-  size_t            underscore_pos = block_name_.rfind("_");
-  std::string       block_id_str   = block_name_.substr(underscore_pos + 1, block_name_.size());
-  std::stringstream ss;
-  ss << block_id_str;
-  ss >> block_id_;
+  std::stringstream ss(props);
+  std::string       extra;
+  if (!(ss >> block_name_ >> material_key_) || ss >> extra) {
+    throw std::invalid_argument("\n**** Error in element block, expected a block and a material: " + props + "\n");
+  }
+  size_t underscore_pos = block_name_.rfind("_");
+  block_id_             = string_to_int(block_name_.substr(underscore_pos + 1));
 }
 
 Parser::Parser()
-- 
2.43.0


From 2eb17917c8479e9be3c201c5ca6eb231533692c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:22 +0000
Subject: [PATCH 14/60] fix: report errors in the input deck like other errors
 instead of aborting

---
 src/nimble.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nimble.cc b/src/nimble.cc
index 560d38f..a81f0e3 100644
--- a/src/nimble.cc
+++ b/src/nimble.cc
@@ -122,11 +122,11 @@ NimbleApplication::Run(int argc, char **argv) {
 
   impl_->parser_->SetInputFilename(impl_->cli_config_->InputFilename());
 
-  InitializeSubsystems();
-
   // Run main; if using VT this will run it in an epoch
   int status = 0;
   try {
+    InitializeSubsystems();
+
     status = ExecMain();
   } catch (std::exception& e) {
     std::cerr << "Standard exception: " << e.what() << std::endl;
-- 
2.43.0


From 74778b9fb26e5cdb9f576d9f937c51735792b943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:52 +0000
Subject: [PATCH 15/60] fix: --use_uq sets the UQ flag

---
 src/nimble_cli.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_cli.cc b/src/nimble_cli.cc
index 66c5ecb..b548b78 100644
--- a/src/nimble_cli.cc
+++ b/src/nimble_cli.cc
@@ -98,7 +98,7 @@ CommandLineConfiguration::ConfigureCommandLineArguments() {
 #endif
           });
 
-  impl_->cli_app_.add_flag("--use_uq", impl_->use_vt_, "Use UQ capability")->check([](const std::string&) -> std::string {
+  impl_->cli_app_.add_flag("--use_uq", impl_->use_uq_, "Use UQ capability")->check([](const std::string&) -> std::string {
 #ifdef NIMBLE_HAVE_UQ
     return {};  // Empty string on success
 #else
-- 
2.43.0


From cefa6ff2b749281d929f2343f416b3f1c5dc7dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:52 +0000
Subject: [PATCH 16/60] fix: reject missing, two-dimensional and inconsistent
 meshes instead of reading out of bounds

---
 src/nimble.cc              |  2 ++
 src/nimble_genesis_mesh.cc | 15 ++++++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/nimble.cc b/src/nimble.cc
index a81f0e3..3dad633 100644
--- a/src/nimble.cc
+++ b/src/nimble.cc
@@ -44,6 +44,7 @@
 #include "nimble.h"
 #include <exception>
 #include <memory>
+#include <stdexcept>
 
 #ifdef NIMBLE_HAVE_MPI
 #include <mpi.h>
@@ -331,6 +332,7 @@ NimbleApplication::MainLoop()
   {
     std::string genesis_file_name = nimble::IOFileName(impl_->parser_->GenesisFileName(), "g", "", my_rank, num_ranks);
     mesh.ReadFile(genesis_file_name);
+    if (!mesh.IsValid()) { throw std::invalid_argument("Error: the input deck names no genesis input file."); }
   }
 
   std::string tag                = "out";
diff --git a/src/nimble_genesis_mesh.cc b/src/nimble_genesis_mesh.cc
index 1a0c74c..c5f6f55 100644
--- a/src/nimble_genesis_mesh.cc
+++ b/src/nimble_genesis_mesh.cc
@@ -86,6 +86,7 @@ GenesisMesh::ReadFile(std::string file_name)
   int  retval =
       ex_get_init(exodus_file_id, title, &dim_, &num_nodes, &num_elem, &num_blocks, &num_node_sets, &num_side_sets);
   if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_init");
+  if (dim_ != 3) { NIMBLE_ABORT("GenesisMesh::ReadFile(), only three-dimensional meshes are supported!"); }
 
   // Node coordinates
   node_x_.resize(num_nodes);
@@ -181,7 +182,12 @@ GenesisMesh::ReadFile(std::string file_name)
       retval         = ex_get_set(exodus_file_id, EX_NODE_SET, id, &node_sets_[id][0], NULL);
       if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_set");
       // convert from 1-based indexing to 0-based indexing
-      for (unsigned int j = 0; j < node_sets_[id].size(); j++) { node_sets_[id][j] -= 1; }
+      for (unsigned int j = 0; j < node_sets_[id].size(); j++) {
+        node_sets_[id][j] -= 1;
+        if (node_sets_[id][j] < 0 || node_sets_[id][j] >= num_nodes) {
+          NIMBLE_ABORT("GenesisMesh::ReadFile(), node set refers to a node that is not in the mesh!");
+        }
+      }
     }
     ns_distribution_factors_[id] = std::vector<double>();
     if (num_dist_factors_in_ns > 0) {
@@ -293,6 +299,9 @@ GenesisMesh::ReadFile(std::string file_name)
         &num_attributes);
     if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_block");
     block_num_nodes_per_elem_[block_id] = num_nodes_per_elem;
+    if (num_nodes_per_elem != 8) {
+      NIMBLE_ABORT("GenesisMesh::ReadFile(), only eight-node hexahedral elements are supported!");
+    }
 
     // global element ids for this block
     block_elem_global_ids_[block_id] = std::vector<int>(num_elem_this_block);
@@ -307,6 +316,10 @@ GenesisMesh::ReadFile(std::string file_name)
     // Switch from 1-based indexing to 0-based indexing
     for (unsigned int i = 0; i < block_elem_connectivity_.at(block_id).size(); i++) {
       block_elem_connectivity_.at(block_id).at(i) -= 1;
+      int node = block_elem_connectivity_.at(block_id).at(i);
+      if (node < 0 || node >= num_nodes) {
+        NIMBLE_ABORT("GenesisMesh::ReadFile(), element refers to a node that is not in the mesh!");
+      }
     }
   }
 
-- 
2.43.0


From 672fc895b9ed07af61e7640831968091e346fdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 17/60] fix: reject contact commands with unknown blocks, no
 blocks or no penalty parameter

---
 src/nimble_contact_manager.cc | 7 ++++++-
 src/nimble_genesis_mesh.cc    | 8 +++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/nimble_contact_manager.cc b/src/nimble_contact_manager.cc
index 49d1c5b..9a7335b 100644
--- a/src/nimble_contact_manager.cc
+++ b/src/nimble_contact_manager.cc
@@ -145,7 +145,12 @@ ParseContactCommand(
         "\"penalty_parameter\".\n");
   }
 
-  ss >> penalty_parameter;
+  if (!(ss >> penalty_parameter) || !(ss >> std::ws).eof()) {
+    throw std::invalid_argument("\n**** Error processing contact command, expected a single penalty parameter.\n");
+  }
+  if (primary_block_names.empty() || secondary_block_names.empty()) {
+    throw std::invalid_argument("\n**** Error processing contact command, expected primary and secondary blocks.\n");
+  }
 }
 
 std::shared_ptr<nimble::ContactManager>
diff --git a/src/nimble_genesis_mesh.cc b/src/nimble_genesis_mesh.cc
index c5f6f55..b8add1d 100644
--- a/src/nimble_genesis_mesh.cc
+++ b/src/nimble_genesis_mesh.cc
@@ -542,7 +542,13 @@ GenesisMesh::BlockNamesToOnProcessorBlockIds(std::vector<std::string> const& blo
   for (auto& name : block_names) {
     // if the block name is not on this processor, do not add it to the list of
     // block ids
-    if (HasBlock(name)) { block_ids.push_back(GetBlockId(name)); }
+    if (HasBlock(name)) {
+      block_ids.push_back(GetBlockId(name));
+    } else if (std::none_of(all_block_names_.begin(), all_block_names_.end(), [&name](auto const& id_and_name) {
+                 return id_and_name.second == name;
+               })) {
+      throw std::invalid_argument("Error, there is no element block named " + name);
+    }
   }
 }
 
-- 
2.43.0


From 6c1eb65304d9fe5305b3811af33a3f95d804d35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 18/60] fix: reject boundary conditions on sets that are on no
 rank

---
 src/nimble_boundary_condition_manager.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/nimble_boundary_condition_manager.cc b/src/nimble_boundary_condition_manager.cc
index 71656ea..d2a1f1a 100644
--- a/src/nimble_boundary_condition_manager.cc
+++ b/src/nimble_boundary_condition_manager.cc
@@ -43,8 +43,14 @@
 
 #include "nimble_boundary_condition_manager.h"
 
+#include <stdexcept>
+
 #include "nimble_linear_solver.h"
 
+#ifdef NIMBLE_HAVE_MPI
+#include <mpi.h>
+#endif
+
 namespace nimble {
 
 void
@@ -72,6 +78,13 @@ BoundaryConditionManager::Initialize(
   for (int i = 0; i < bc_strings.size(); i++) {
     BoundaryCondition bc;
     bool              is_valid = bc.Initialize(dim_, bc_strings[i], node_set_names, side_set_names);
+    int is_valid_on_any_rank = is_valid ? 1 : 0;
+#ifdef NIMBLE_HAVE_MPI
+    MPI_Allreduce(MPI_IN_PLACE, &is_valid_on_any_rank, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
+#endif
+    if (is_valid_on_any_rank == 0) {
+      throw std::invalid_argument("Error processing boundary condition, there is no such set: " + bc_strings[i]);
+    }
     if (is_valid) { boundary_conditions_.push_back(bc); }
   }
 }
-- 
2.43.0


From 59faea1963b747540418392a43973a95e7cf5330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:35 +0000
Subject: [PATCH 19/60] fix: reject output fields that do not exist

---
 src/nimble_kokkos_model_data.cc | 52 ++++++++++++++++++++++++++++++++-
 1 file changed, 51 insertions(+), 1 deletion(-)

diff --git a/src/nimble_kokkos_model_data.cc b/src/nimble_kokkos_model_data.cc
index 8f5957b..1738008 100644
--- a/src/nimble_kokkos_model_data.cc
+++ b/src/nimble_kokkos_model_data.cc
@@ -44,9 +44,14 @@
 #include "nimble_kokkos_model_data.h"
 
 #include <Kokkos_ScatterView.hpp>
+#include <algorithm>
 #include <memory>
 #include <stdexcept>
 
+#ifdef NIMBLE_HAVE_MPI
+#include <mpi.h>
+#endif
+
 #include "nimble_data_manager.h"
 #include "nimble_kokkos_block.h"
 #include "nimble_kokkos_material_factory.h"
@@ -61,6 +66,9 @@ class ExodusOutputManager
  public:
   ExodusOutputManager() : output_element_volume_(false), volume_field_id_(0){};
 
+  void
+  CheckOutputFields(nimble_kokkos::ModelData& model_data, std::vector<std::string> const& requested_labels) const;
+
   void
   SpecifyOutputFields(nimble_kokkos::ModelData& model_data, std::string const& output_command_string);
 
@@ -112,6 +120,46 @@ class ExodusOutputManager
   std::map<int, std::vector<int>> full_tensor_field_ids_requiring_volume_average_;
 };
 
+void
+ExodusOutputManager::CheckOutputFields(
+    nimble_kokkos::ModelData&       model_data,
+    std::vector<std::string> const& requested_labels) const
+{
+  std::vector<std::string> node_labels = model_data.GetScalarNodeDataLabels();
+  for (auto const& label : model_data.GetVectorNodeDataLabels()) { node_labels.push_back(label); }
+  node_labels.push_back("volume");
+  std::vector<std::string> ipt_labels;
+  for (auto const& block_id : model_data.GetBlockIds()) {
+    for (auto const& label : model_data.GetSymmetricTensorIntegrationPointDataLabels(block_id)) {
+      ipt_labels.push_back(label);
+    }
+    for (auto const& label : model_data.GetFullTensorIntegrationPointDataLabels(block_id)) {
+      ipt_labels.push_back(label);
+    }
+  }
+  auto has = [](std::vector<std::string> const& labels, std::string const& label) {
+    return std::find(labels.begin(), labels.end(), label) != labels.end();
+  };
+
+  // The blocks on this rank need not have all the fields, so ask all the ranks
+  std::vector<int> is_known;
+  for (auto const& label : requested_labels) {
+    bool single_integration_point = label.size() > 6 && label.substr(0, 4) == "ipt0" && label[4] >= '1' &&
+                                    label[4] <= '8' && label[5] == '_';
+    bool known = has(node_labels, label) || has(ipt_labels, label) ||
+                 (single_integration_point && has(ipt_labels, label.substr(6)));
+    is_known.push_back(known ? 1 : 0);
+  }
+#ifdef NIMBLE_HAVE_MPI
+  MPI_Allreduce(MPI_IN_PLACE, is_known.data(), is_known.size(), MPI_INT, MPI_MAX, MPI_COMM_WORLD);
+#endif
+  for (std::size_t i = 0; i < requested_labels.size(); ++i) {
+    if (is_known[i] == 0) {
+      throw std::invalid_argument("Error processing output fields, there is no such field: " + requested_labels[i]);
+    }
+  }
+}
+
 void
 ExodusOutputManager::SpecifyOutputFields(nimble_kokkos::ModelData& model_data, std::string const& output_command_string)
 {
@@ -119,7 +167,9 @@ ExodusOutputManager::SpecifyOutputFields(nimble_kokkos::ModelData& model_data, s
   std::vector<std::string> requested_labels;
   std::stringstream        ss(output_command_string);
   std::string              entry;
-  while (std::getline(ss, entry, ' ')) { requested_labels.push_back(entry); }
+  while (ss >> entry) { requested_labels.push_back(entry); }
+
+  CheckOutputFields(model_data, requested_labels);
 
   std::vector<std::string> scalar_node_data_labels = model_data.GetScalarNodeDataLabels();
   for (auto const& requested_label : requested_labels) {
-- 
2.43.0


From 1a8ebe0e326aac1d90bd1410733175eeaad78b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:23 +0000
Subject: [PATCH 20/60] fix: accept tabs between material parameters

---
 src/nimble_parser.cc     | 2 +-
 src/nimble_parser_util.h | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/nimble_parser.cc b/src/nimble_parser.cc
index b62469c..df01457 100644
--- a/src/nimble_parser.cc
+++ b/src/nimble_parser.cc
@@ -312,7 +312,7 @@ Parser::ParseKeyValue(const std::string& key, const std::string& value)
 
     contact_visualization_file_name_ = vals[5];
   } else if (key == "material parameters") {
-    size_t      space_pos           = value.find(" ");
+    size_t      space_pos           = value.find_first_of(" \t");
     std::string material_key        = value.substr(0, space_pos);
     std::string material_props      = value.substr(space_pos + 1, value.size());
     material_strings_[material_key] = material_props;
diff --git a/src/nimble_parser_util.h b/src/nimble_parser_util.h
index d310034..4be9dff 100644
--- a/src/nimble_parser_util.h
+++ b/src/nimble_parser_util.h
@@ -80,8 +80,9 @@ tokenize_string(const std::string& s)
     if (is_quoted_segment(i)) {
       tokens.push_back(*quote);
     } else {
-      auto segment_tokens = tokenize_string_with_separator(*quote, ' ');
-      tokens.insert(tokens.end(), segment_tokens.begin(), segment_tokens.end());
+      std::stringstream segment(*quote);
+      std::string       token;
+      while (segment >> token) { tokens.push_back(token); }
     }
   }
   return tokens;
-- 
2.43.0


From 6b26940523f658a04f6c5b921ebc9923214a8e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:47 +0000
Subject: [PATCH 21/60] fix: print the symmetric stretch as such instead of
 reading past its end

---
 src/nimble_utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_utils.h b/src/nimble_utils.h
index 5942007..e08a3e6 100644
--- a/src/nimble_utils.h
+++ b/src/nimble_utils.h
@@ -1062,7 +1062,7 @@ CheckCorrectnessOfPolarDecomp(
   if (should_be_zero_norm > norm_tol) {
     std::cout << "\n\nFailure in CheckCorrectnessOfPolarDecomp()!" << std::endl;
     Print_Full33("mat", mat);
-    Print_Full33("V", V);
+    Print_Sym33("V", V);
     Print_Full33("R", R);
     std::cout << "norm of error = " << should_be_zero_norm << "\n" << std::endl;
     // NIMBLE_ABORT("\n**** Polar decomposition correctness check
-- 
2.43.0


From 64271368eb3a385aaa9e457c7cd22afb5a5bcc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:48 +0000
Subject: [PATCH 22/60] fix: logarithm of rotations by and near half a turn

---
 src/nimble_utils.h | 64 ++++++++++++++++++++++------------------------
 1 file changed, 30 insertions(+), 34 deletions(-)

diff --git a/src/nimble_utils.h b/src/nimble_utils.h
index e08a3e6..b2e7c2a 100644
--- a/src/nimble_utils.h
+++ b/src/nimble_utils.h
@@ -1136,26 +1136,27 @@ Log_Rotation_Pi(const ScalarT* const rotation, ScalarT* const log_rotation)
   v[1] = B[K_F_YY];
   v[2] = B[K_F_YZ];
 
-  ScalarT normal[3];
-  CrossProduct(u, v, normal);
-
-  ScalarT norm = normal[0] * normal[0] + normal[1] * normal[1] + normal[2] * normal[2];
-  if (norm > 0.0) { norm = std::sqrt(norm); }
-
-  if (norm < machine_epsilon) {
-    ScalarT w[3];
-    w[0] = B[K_F_ZX];
-    w[1] = B[K_F_ZY];
-    w[2] = B[K_F_ZZ];
-
-    CrossProduct(u, w, normal);
-
-    norm = normal[0] * normal[0] + normal[1] * normal[1] + normal[2] * normal[2];
-    if (norm > 0.0) { norm = std::sqrt(norm); }
-
-    NIMBLE_ASSERT(norm >= machine_epsilon, "\n**** Error in Log_Rotation_Pi(), cannot"
-                  " determine rotation vector.");
+  ScalarT w[3];
+  w[0] = B[K_F_ZX];
+  w[1] = B[K_F_ZY];
+  w[2] = B[K_F_ZZ];
+
+  // The rows of B are normal to the axis; use the pair that determines it best
+  ScalarT        normal[3];
+  ScalarT        norm      = -1.0;
+  const ScalarT* pairs[][2] = {{u, v}, {u, w}, {v, w}};
+  for (auto const& pair : pairs) {
+    ScalarT candidate[3];
+    CrossProduct(pair[0], pair[1], candidate);
+    ScalarT candidate_norm = std::sqrt(
+        candidate[0] * candidate[0] + candidate[1] * candidate[1] + candidate[2] * candidate[2]);
+    if (candidate_norm > norm) {
+      norm = candidate_norm;
+      for (int i = 0; i < 3; ++i) { normal[i] = candidate[i]; }
+    }
   }
+  NIMBLE_ASSERT(norm >= machine_epsilon, "\n**** Error in Log_Rotation_Pi(), cannot"
+                " determine rotation vector.");
 
   normal[0] /= norm;
   normal[1] /= norm;
@@ -1204,25 +1205,20 @@ Log_Rotation(const ScalarT* const rotation, ScalarT* const log_rotation)
     // throw std::invalid_argument(ss.str());
   }
 
-  // acos requires input between -1 and +1
+  // the arc cosine is inaccurate near 0 and 180 degrees, the sine determines the angle there
   ScalarT cosine = 0.5 * (rotation[K_F_XX] + rotation[K_F_YY] + rotation[K_F_ZZ] - 1.0);
-  if (cosine < -1.0) {
-    cosine = -1.0;
-  } else if (cosine > 1.0) {
-    cosine = 1.0;
-  }
-  ScalarT theta = std::acos(cosine);
-
-  if (theta == 0.0) {
+  ScalarT rotation_skew[9];
+  SkewPart_Full33(rotation, rotation_skew);
+  ScalarT sine  = Norm_Full33(rotation_skew) / std::sqrt(2.0);
+  ScalarT theta = std::atan2(sine, cosine);
+
+  if (std::abs(cosine + 1.0) < 10.0 * machine_epsilon) {
+    Log_Rotation_Pi(rotation, log_rotation);
+  } else if (sine == 0.0) {
     Zero_Full33(log_rotation);
-  } else if (std::abs(cosine + 1.0) < 10.0 * machine_epsilon) {
-    //        r = log_rotation_pi(R);
   } else {
     // r = theta / std::sin(theta) * skew(R);
-    ScalarT a = theta / std::sin(theta);
-    ScalarT rotation_skew[9];
-    SkewPart_Full33(rotation, rotation_skew);
-    Mult_Scalar_Full33(a, rotation_skew, log_rotation);
+    Mult_Scalar_Full33(theta / sine, rotation_skew, log_rotation);
   }
 }
 
-- 
2.43.0


From 5ef2a3c777eebbd77ecdddd87a5b5e3318105601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:52 +0000
Subject: [PATCH 23/60] fix: block names of meshes read from text

---
 src/nimble_genesis_mesh.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nimble_genesis_mesh.cc b/src/nimble_genesis_mesh.cc
index b8add1d..6d0bdfd 100644
--- a/src/nimble_genesis_mesh.cc
+++ b/src/nimble_genesis_mesh.cc
@@ -398,6 +398,8 @@ GenesisMesh::ReadTextFile(std::string file_name)
       std::string       block_name;
       ss >> block_id >> block_name >> num_elem_in_block >> num_nodes_per_elem;
       block_ids_.push_back(block_id);
+      all_block_ids_.push_back(block_id);
+      all_block_names_[block_id]          = block_name;
       block_names_[block_id]              = block_name;
       block_num_nodes_per_elem_[block_id] = num_nodes_per_elem;
       block_elem_connectivity_[block_id]  = std::vector<int>(num_elem_in_block * num_nodes_per_elem);
-- 
2.43.0


From f346e7536d5daf96616e0bfedac936762c32c6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 24/60] fix: drop declarations of LU functions that nothing
 defines and that hide the templates

---
 src/nimble_linear_solver.h | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/src/nimble_linear_solver.h b/src/nimble_linear_solver.h
index 0c6ae96..5ef2de5 100644
--- a/src/nimble_linear_solver.h
+++ b/src/nimble_linear_solver.h
@@ -229,15 +229,6 @@ InnerProduct(const std::vector<double>& vec_1, const std::vector<double>& vec_2)
   return InnerProduct(vec_1.size(), &vec_1[0], &vec_2[0]);
 }
 
-void
-LU_Decompose(int num_entries, MatrixContainer& mat, int* index);
-
-void
-LU_Solve(int num_entries, MatrixContainer& mat, double* vec, int* index);
-
-void
-LU_SolveSystem(int num_entries, MatrixContainer& mat, double* vec, int* scratch);
-
 struct CGScratchSpace
 {
   CGScratchSpace() : len_(0) {}
-- 
2.43.0


From 7764b830671ec962b7e5ce4ba760a4e8cdd6fcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:08 +0000
Subject: [PATCH 25/60] fix: close the last row of diagonal matrices

---
 src/nimble_linear_solver.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nimble_linear_solver.h b/src/nimble_linear_solver.h
index 5ef2de5..1df4a2a 100644
--- a/src/nimble_linear_solver.h
+++ b/src/nimble_linear_solver.h
@@ -133,13 +133,14 @@ class CRSMatrixContainer
     data_.resize(num_rows_);
     i_index_.resize(num_rows_);
     j_index_.resize(num_rows_);
-    row_first_index_.resize(num_rows_);
+    row_first_index_.resize(num_rows_ + 1);
     for (int i = 0; i < num_rows_; i++) {
       data_[i]            = 0.0;
       i_index_[i]         = i;
       j_index_[i]         = i;
       row_first_index_[i] = i;
     }
+    row_first_index_[num_rows_] = num_rows_;
   }
 
   void
-- 
2.43.0


From b83d486a1599c786f2008ae167a451deacb9f7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:21 +0000
Subject: [PATCH 26/60] fix: index sparse matrices that have empty rows

---
 src/nimble_linear_solver.cc | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/nimble_linear_solver.cc b/src/nimble_linear_solver.cc
index 0f8d83d..2f3adab 100644
--- a/src/nimble_linear_solver.cc
+++ b/src/nimble_linear_solver.cc
@@ -68,10 +68,7 @@ CRSMatrixContainer::AllocateNonzeros(std::vector<int> const& i_index, std::vecto
   int current_row = -1;
   for (int i = 0; i < i_index_.size(); i++) {
     int row = i_index_[i];
-    if (row > current_row) {
-      row_first_index_[row] = i;
-      current_row           = row;
-    }
+    while (current_row < row) { row_first_index_[++current_row] = i; }
   }
   row_first_index_[num_rows_] = i_index_.size();
 }
-- 
2.43.0


From 106cb57b141f0daa7ce8a213740d548887399d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:39 +0000
Subject: [PATCH 27/60] fix: conjugate gradients report success if and only if
 the tolerance is met

---
 src/nimble_linear_solver.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/nimble_linear_solver.cc b/src/nimble_linear_solver.cc
index 2f3adab..7ae089e 100644
--- a/src/nimble_linear_solver.cc
+++ b/src/nimble_linear_solver.cc
@@ -225,9 +225,7 @@ CG_SolveSystem(
   }
 
   num_iterations = iteration;
-  bool success   = true;
-  if (iteration == max_iterations) { success = false; }
-  return success;
+  return delta_new <= tolerance;
 }
 
 }  // namespace nimble
-- 
2.43.0


From 77dcb27769c4409e83fc831e1ecafda1fd19a670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:39 +0000
Subject: [PATCH 28/60] fix: LU decomposition detects a column without pivot

---
 src/nimble_utils.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nimble_utils.h b/src/nimble_utils.h
index b2e7c2a..2ec984c 100644
--- a/src/nimble_utils.h
+++ b/src/nimble_utils.h
@@ -1297,7 +1297,8 @@ LU_Decompose(int num_entries, Matrix& mat, int* index)
       mat(i, j) = sum;
     }
 
-    big = 0.0;
+    big  = 0.0;
+    imax = j;
     for (int i = j; i < n; ++i) {
       sum = mat(i, j);
       for (int k = 0; k < j; ++k) { sum -= mat(i, k) * mat(k, j); }
-- 
2.43.0


From d2322f3383b6f9ec62775c3dde878a1d52624fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:37 +0000
Subject: [PATCH 29/60] fix: gather separates contributions of different
 lengths

---
 src/nimble.mpi.mpicontext.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble.mpi.mpicontext.h b/src/nimble.mpi.mpicontext.h
index e4e4e41..6337f87 100644
--- a/src/nimble.mpi.mpicontext.h
+++ b/src/nimble.mpi.mpicontext.h
@@ -218,7 +218,7 @@ class mpicontext
       for (size_t i = 0; i < result.size(); ++i) {
         result[i]  = std::vector<int>(start_iter, end_iter);
         start_iter = end_iter;
-        end_iter += recv_counts[i];
+        if (i + 1 < result.size()) end_iter += recv_counts[i + 1];
       }
       // Return result
       return result;
-- 
2.43.0


From 08b47d46b3ca9ebff368e2c50ada6e1c44477a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:37 +0000
Subject: [PATCH 30/60] fix: scatter sends the values and gives the root its
 share

---
 src/nimble.mpi.mpicontext.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/nimble.mpi.mpicontext.h b/src/nimble.mpi.mpicontext.h
index 6337f87..1c5e1bc 100644
--- a/src/nimble.mpi.mpicontext.h
+++ b/src/nimble.mpi.mpicontext.h
@@ -250,8 +250,11 @@ class mpicontext
       std::vector<int> source_made_contiguous(std::accumulate(send_counts.begin(), send_counts.end(), 0), 0);
 
       std::partial_sum(send_counts.begin(), send_counts.end() - 1, displacements.data() + 1);
+      for (size_t i = 0; i < send_counts.size(); ++i) {
+        std::copy(source[i].begin(), source[i].end(), source_made_contiguous.begin() + displacements[i]);
+      }
       MPI_Scatterv(
-          source.data(),
+          source_made_contiguous.data(),
           send_counts.data(),
           displacements.data(),
           MPI_INT,
@@ -260,6 +263,7 @@ class mpicontext
           MPI_INT,
           root,
           this->get_comm());
+      return destination;
     } else {
       int recvcount;
       MPI_Scatter(0, 0, MPI_INT, &recvcount, 1, MPI_INT, root, this->get_comm());
@@ -267,7 +271,6 @@ class mpicontext
       MPI_Scatterv(0, 0, 0, MPI_INT, recvbuff.data(), recvcount, MPI_INT, root, this->get_comm());
       return recvbuff;
     }
-    return std::vector<int>();
   }
 
   template <size_t count>
-- 
2.43.0


From 274fb9168de67a2c26ec29f203a14c9442611ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:37 +0000
Subject: [PATCH 31/60] fix: define the buffer that sendpacked packs into

---
 src/nimble.mpi.mpicontext.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/nimble.mpi.mpicontext.h b/src/nimble.mpi.mpicontext.h
index 1c5e1bc..487bf78 100644
--- a/src/nimble.mpi.mpicontext.h
+++ b/src/nimble.mpi.mpicontext.h
@@ -61,7 +61,6 @@
 namespace nimble {
 class mpicontext
 {
-  static std::vector<int> serialization_buffer;
   static int
   get_rank(MPI_Comm comm)
   {
@@ -180,8 +179,8 @@ class mpicontext
   void
   sendpacked(const T& source, int rank, int tag) const
   {
-    int sendcount = serialization::pack_avoid_resize(source, serialization_buffer);
-    send({serialization_buffer.data(), sendcount}, rank, tag);
+    std::vector<int> buffer;
+    sendpacked(source, rank, tag, buffer);
   }
   std::vector<std::vector<int>>
   gather(const std::vector<int>& source, int root) const
-- 
2.43.0


From b6d1f54bef9ca9eaaa7189679e8b95f9f6669753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:37 +0000
Subject: [PATCH 32/60] fix: size of packed empty vectors

---
 src/nimble.mpi.serialization.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nimble.mpi.serialization.h b/src/nimble.mpi.serialization.h
index 87ee436..e7a13c5 100644
--- a/src/nimble.mpi.serialization.h
+++ b/src/nimble.mpi.serialization.h
@@ -220,6 +220,7 @@ struct serial<std::vector<T>, false, true>
   static size_t
   size(const std::vector<T>& vect)
   {
+    if (vect.empty()) return sizeof(size_t);
     return serial_t<T>::size(vect[0]) * vect.size() + sizeof(size_t);
   }
   static void
-- 
2.43.0


From 254ad47245ae0289262446bae70119a3cbdd998e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:39 +0000
Subject: [PATCH 33/60] fix: no references to the first entry of empty meshes
 and buffers

---
 src/nimble_contact_entity.h |  4 ++--
 src/nimble_exodus_output.cc | 12 ++++++------
 src/nimble_genesis_mesh.cc  | 12 ++++++------
 src/nimble_genesis_mesh.h   | 12 ++++++------
 4 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/nimble_contact_entity.h b/src/nimble_contact_entity.h
index 0b12861..42a99a4 100644
--- a/src/nimble_contact_entity.h
+++ b/src/nimble_contact_entity.h
@@ -603,7 +603,7 @@ SerializeContactFaces(int num_entities, ArgT contact_entities, std::vector<char>
   constexpr size_t size_double = sizeof(double);
   size_t           entity_size = 10 * sizeof(double) + 8 * sizeof(int);
   buffer.resize(entity_size * num_entities);
-  char* scan = &buffer[0];
+  char* scan = buffer.data();
   for (int i = 0; i < num_entities; i++) {
     memcpy(scan, &contact_entities[i].coord_1_x_, size_double);
     scan += size_double;
@@ -660,7 +660,7 @@ UnserializeContactFaces(int num_entities, ArgT contact_entities, std::vector<cha
   entity.force_3_x_   = 0.0;
   entity.force_3_y_   = 0.0;
   entity.force_3_z_   = 0.0;
-  char* scan          = &buffer[0];
+  char* scan          = buffer.data();
   for (int i = 0; i < num_entities; i++) {
     memcpy(&entity.coord_1_x_, scan, size_double);
     scan += size_double;
diff --git a/src/nimble_exodus_output.cc b/src/nimble_exodus_output.cc
index 9511191..9a22758 100644
--- a/src/nimble_exodus_output.cc
+++ b/src/nimble_exodus_output.cc
@@ -157,7 +157,7 @@ ExodusOutput::InitializeDatabase(
       int              num_node_in_elem = genesis_mesh.GetNumNodesPerElement(id);
       std::vector<int> exodus_conn(num_elements_in_block * num_node_in_elem);
       for (int j = 0; j < num_elements_in_block * num_node_in_elem; j++) { exodus_conn[j] = conn[j] + 1; }
-      retval = ex_put_conn(exodus_file_id, EX_ELEM_BLOCK, id, &exodus_conn[0], nullptr, nullptr);
+      retval = ex_put_conn(exodus_file_id, EX_ELEM_BLOCK, id, exodus_conn.data(), nullptr, nullptr);
       if (retval != 0) ReportExodusError(retval, "InitializeDatabase", "ex_put_conn");
     }
   }
@@ -167,7 +167,7 @@ ExodusOutput::InitializeDatabase(
   // Switch to 1-based indexing
   std::vector<int> temp_node_global_ids(num_nodes_);
   for (int i = 0; i < num_nodes_; ++i) { temp_node_global_ids[i] = node_global_ids[i] + 1; }
-  retval = ex_put_id_map(exodus_file_id, EX_NODE_MAP, &temp_node_global_ids[0]);
+  retval = ex_put_id_map(exodus_file_id, EX_NODE_MAP, temp_node_global_ids.data());
   if (retval != 0) ReportExodusError(retval, "InitializeDatabase", "ex_put_id_map");
 
   // Write global element number map (global element IDs)
@@ -175,7 +175,7 @@ ExodusOutput::InitializeDatabase(
   // Switch to 1-based indexing
   std::vector<int> temp_elem_global_ids(num_elements_);
   for (int i = 0; i < num_elements_; ++i) { temp_elem_global_ids[i] = elem_global_ids[i] + 1; }
-  retval = ex_put_id_map(exodus_file_id, EX_ELEM_MAP, &temp_elem_global_ids[0]);
+  retval = ex_put_id_map(exodus_file_id, EX_ELEM_MAP, temp_elem_global_ids.data());
   if (retval != 0) ReportExodusError(retval, "InitializeDatabase", "ex_put_id_map");
 
   // Write node sets
@@ -348,7 +348,7 @@ ExodusOutput::WriteStep(
     for (unsigned int i = 0; i < node_data.size(); ++i) {
       int variable_index = static_cast<int>(i + 1);
       retval =
-          ex_put_var(exodus_file_id, exodus_write_count_, EX_NODAL, variable_index, 1, num_nodes_, &node_data[i][0]);
+          ex_put_var(exodus_file_id, exodus_write_count_, EX_NODAL, variable_index, 1, num_nodes_, node_data[i].data());
       if (retval != 0) ReportExodusError(retval, "WriteStep", "ex_put_var");
     }
   }
@@ -368,7 +368,7 @@ ExodusOutput::WriteStep(
           variable_index,
           block_id,
           block_num_elem,
-          &elem_data.at(block_id).at(j)[0]);
+          elem_data.at(block_id).at(j).data());
       if (retval != 0) ReportExodusError(retval, "WriteStep", "ex_put_var");
     }
     int num_derived_elem_data = derived_elem_data_names.at(block_id).size();
@@ -383,7 +383,7 @@ ExodusOutput::WriteStep(
           variable_index,
           block_id,
           block_num_elem,
-          &derived_elem_data.at(block_id).at(j)[0]);
+          derived_elem_data.at(block_id).at(j).data());
       if (retval != 0) ReportExodusError(retval, "WriteStep", "ex_put_var");
     }
   }
diff --git a/src/nimble_genesis_mesh.cc b/src/nimble_genesis_mesh.cc
index 6d0bdfd..70d0741 100644
--- a/src/nimble_genesis_mesh.cc
+++ b/src/nimble_genesis_mesh.cc
@@ -92,12 +92,12 @@ GenesisMesh::ReadFile(std::string file_name)
   node_x_.resize(num_nodes);
   node_y_.resize(num_nodes);
   if (dim_ == 3) { node_z_.resize(num_nodes); }
-  retval = ex_get_coord(exodus_file_id, &node_x_[0], &node_y_[0], &node_z_[0]);
+  retval = ex_get_coord(exodus_file_id, node_x_.data(), node_y_.data(), node_z_.data());
   if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_coord");
 
   // Global node numbering (default map name)
   node_global_id_.resize(num_nodes);
-  retval = ex_get_id_map(exodus_file_id, EX_NODE_MAP, &node_global_id_[0]);
+  retval = ex_get_id_map(exodus_file_id, EX_NODE_MAP, node_global_id_.data());
   if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_id_map");
   for (int i = 0; i < num_nodes; ++i) {
     node_global_id_[i] -= 1;  // Switch from 1-based indexing to 0-based indexing
@@ -105,7 +105,7 @@ GenesisMesh::ReadFile(std::string file_name)
 
   // Global element numbering (default map name)
   elem_global_id_.resize(num_elem);
-  retval = ex_get_id_map(exodus_file_id, EX_ELEM_MAP, &elem_global_id_[0]);
+  retval = ex_get_id_map(exodus_file_id, EX_ELEM_MAP, elem_global_id_.data());
   if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_id_map");
   for (int i = 0; i < num_elem; ++i) {
     elem_global_id_[i] -= 1;  // Switch from 1-based indexing to 0-based indexing
@@ -131,7 +131,7 @@ GenesisMesh::ReadFile(std::string file_name)
     if (std::string(map_name) != std::string("original_global_id_map")) {
       NIMBLE_ABORT("GenesisMesh::ReadFile(), unsupported auxiliary node map!");
     }
-    retval = ex_get_num_map(exodus_file_id, EX_NODE_MAP, 1, &node_global_id_[0]);
+    retval = ex_get_num_map(exodus_file_id, EX_NODE_MAP, 1, node_global_id_.data());
     if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_num_map");
     for (int i = 0; i < num_nodes; ++i) {
       node_global_id_[i] -= 1;  // Switch from 1-based indexing to 0-based indexing
@@ -144,7 +144,7 @@ GenesisMesh::ReadFile(std::string file_name)
     if (std::string(map_name) != std::string("original_global_id_map")) {
       NIMBLE_ABORT("GenesisMesh::ReadFile(), unsupported auxiliary element map!");
     }
-    retval = ex_get_num_map(exodus_file_id, EX_ELEM_MAP, 1, &elem_global_id_[0]);
+    retval = ex_get_num_map(exodus_file_id, EX_ELEM_MAP, 1, elem_global_id_.data());
     if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_num_map");
     for (int i = 0; i < num_elem; ++i) {
       elem_global_id_[i] -= 1;  // Switch from 1-based indexing to 0-based indexing
@@ -311,7 +311,7 @@ GenesisMesh::ReadFile(std::string file_name)
 
     // element connectivity for this block
     block_elem_connectivity_[block_id] = std::vector<int>(num_elem_this_block * num_nodes_per_elem);
-    retval = ex_get_conn(exodus_file_id, EX_ELEM_BLOCK, block_id, &block_elem_connectivity_.at(block_id)[0], 0, 0);
+    retval = ex_get_conn(exodus_file_id, EX_ELEM_BLOCK, block_id, block_elem_connectivity_.at(block_id).data(), 0, 0);
     if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_conn");
     // Switch from 1-based indexing to 0-based indexing
     for (unsigned int i = 0; i < block_elem_connectivity_.at(block_id).size(); i++) {
diff --git a/src/nimble_genesis_mesh.h b/src/nimble_genesis_mesh.h
index 8da014a..5990841 100644
--- a/src/nimble_genesis_mesh.h
+++ b/src/nimble_genesis_mesh.h
@@ -95,7 +95,7 @@ class GenesisMesh
   const int*
   GetNodeGlobalIds() const
   {
-    return &node_global_id_[0];
+    return node_global_id_.data();
   }
   std::size_t
   GetNumNodeGlobalIds() const
@@ -122,7 +122,7 @@ class GenesisMesh
   const int*
   GetElementGlobalIds() const
   {
-    return &elem_global_id_[0];
+    return elem_global_id_.data();
   }
 
   std::vector<int> const&
@@ -200,25 +200,25 @@ class GenesisMesh
   const double*
   GetCoordinatesX() const
   {
-    return &node_x_[0];
+    return node_x_.data();
   }
 
   const double*
   GetCoordinatesY() const
   {
-    return &node_y_[0];
+    return node_y_.data();
   }
 
   const double*
   GetCoordinatesZ() const
   {
-    return &node_z_[0];
+    return node_z_.data();
   }
 
   const int*
   GetConnectivity(int block_id) const
   {
-    return &block_elem_connectivity_.at(block_id)[0];
+    return block_elem_connectivity_.at(block_id).data();
   }
 
   std::map<int, std::vector<int>>&
-- 
2.43.0


From 6db4fbacb01e36038ec9f4f3707c7384436d6be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:37 +0000
Subject: [PATCH 34/60] fix: surface nodes whose lowest rank has no secondary
 face become contact nodes

---
 src/nimble_contact_manager.cc | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/nimble_contact_manager.cc b/src/nimble_contact_manager.cc
index 9a7335b..4a65b4f 100644
--- a/src/nimble_contact_manager.cc
+++ b/src/nimble_contact_manager.cc
@@ -229,18 +229,44 @@ ContactManager::CreateContactEntities(
   RemoveInternalSkinFaces(mesh, secondary_skin_faces, secondary_skin_entity_ids);
 
   // create a list of ghosted nodes (e.g., nodes that are owned by a different
-  // processor)
+  // processor). The owner is the lowest of the ranks that have the node on
+  // their secondary faces: other ranks create no contact node for it.
   std::vector<int> partition_boundary_node_local_ids;
   std::vector<int> min_rank_containing_partition_boundary_nodes;
   myVecComm.GetPartitionBoundaryNodeLocalIds(
       partition_boundary_node_local_ids, min_rank_containing_partition_boundary_nodes);
 
   std::vector<int> ghosted_node_local_ids;
-  for (int i = 0; i < partition_boundary_node_local_ids.size(); i++) {
-    if (min_rank_containing_partition_boundary_nodes[i] != mpi_rank) {
-      ghosted_node_local_ids.push_back(partition_boundary_node_local_ids[i]);
+#ifdef NIMBLE_HAVE_MPI
+  std::set<int> secondary_skin_node_ids;
+  for (auto const& face : secondary_skin_faces) { secondary_skin_node_ids.insert(face.begin(), face.end()); }
+  std::map<int, int> shared_global_to_local_id;
+  std::vector<int>   shared_global_ids;
+  for (auto local_id : partition_boundary_node_local_ids) {
+    if (secondary_skin_node_ids.count(local_id)) {
+      shared_global_ids.push_back(mesh.GetNodeGlobalIds()[local_id]);
+      shared_global_to_local_id[shared_global_ids.back()] = local_id;
     }
   }
+  int              num_shared = static_cast<int>(shared_global_ids.size());
+  std::vector<int> num_shared_on_rank(num_ranks), offset(num_ranks + 1, 0);
+  MPI_Allgather(&num_shared, 1, MPI_INT, num_shared_on_rank.data(), 1, MPI_INT, MPI_COMM_WORLD);
+  for (int i = 0; i < num_ranks; i++) { offset[i + 1] = offset[i] + num_shared_on_rank[i]; }
+  std::vector<int> all_shared_global_ids(offset[num_ranks]);
+  MPI_Allgatherv(
+      shared_global_ids.data(),
+      num_shared,
+      MPI_INT,
+      all_shared_global_ids.data(),
+      num_shared_on_rank.data(),
+      offset.data(),
+      MPI_INT,
+      MPI_COMM_WORLD);
+  for (int i = 0; i < offset[mpi_rank]; i++) {
+    auto it = shared_global_to_local_id.find(all_shared_global_ids[i]);
+    if (it != shared_global_to_local_id.end()) { ghosted_node_local_ids.push_back(it->second); }
+  }
+#endif
 
   // construct containers for the subset of the model that is involved with
   // contact this constitutes a submodel that is stored in the ContactManager
-- 
2.43.0


From 018d6630f7c016a37b4e4fba2f6d89c45b793c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:59 +0000
Subject: [PATCH 35/60] fix: model data and material factory of quasi-static
 runs

---
 src/nimble.cc              | 1 +
 src/nimble_data_manager.cc | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/nimble.cc b/src/nimble.cc
index 3dad633..5637d18 100644
--- a/src/nimble.cc
+++ b/src/nimble.cc
@@ -274,6 +274,7 @@ NimbleApplication::CreateCLI(int argc, char **argv)
 std::unique_ptr< MaterialFactoryBase >
 NimbleApplication::CreateMaterialFactory()
 {
+  if (impl_->parser_->TimeIntegrationScheme() == "quasistatic") return std::make_unique<nimble::MaterialFactory>();
   return std::make_unique<nimble_kokkos::MaterialFactory>();
 }
 
diff --git a/src/nimble_data_manager.cc b/src/nimble_data_manager.cc
index 061dfed..0998805 100644
--- a/src/nimble_data_manager.cc
+++ b/src/nimble_data_manager.cc
@@ -109,6 +109,8 @@ DataManager::Initialize()
 #else
     NIMBLE_ABORT(" Wrong environment !\n");
 #endif
+  } else if (parser_.TimeIntegrationScheme() == "quasistatic") {
+    model_data_ = std::make_shared<nimble::ModelData>();
   } else {
     model_data_ = std::make_shared<nimble_kokkos::ModelData>();
   }
-- 
2.43.0


From 5ddf06932d5d277ebc0de88b7cc1e1874968d1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:59 +0000
Subject: [PATCH 36/60] fix: quasi-static residual norms cover all the unknowns

---
 src/integrators/quasistatic_time_integrator.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/integrators/quasistatic_time_integrator.cc b/src/integrators/quasistatic_time_integrator.cc
index 2435a45..b59fb70 100644
--- a/src/integrators/quasistatic_time_integrator.cc
+++ b/src/integrators/quasistatic_time_integrator.cc
@@ -95,11 +95,13 @@ ComputeQuasistaticResidual(
   }
   bc.ModifyRHSForKinematicBC(linear_system_global_node_ids.data(), residual_vector);
 
-  double l2_norm = InnerProduct(num_nodes, residual_vector, residual_vector);
+  double l2_norm = InnerProduct(linear_system_num_unknowns, residual_vector, residual_vector);
   l2_norm        = sqrt(l2_norm);
 
   double infinity_norm(0.0);
-  for (int i = 0; i < num_nodes; i++) { infinity_norm = std::max(infinity_norm, std::abs(residual_vector[i])); }
+  for (int i = 0; i < linear_system_num_unknowns; i++) {
+    infinity_norm = std::max(infinity_norm, std::abs(residual_vector[i]));
+  }
 #ifdef NIMBLE_HAVE_MPI
   double restmp = infinity_norm;
   MPI_Allreduce(&restmp, &infinity_norm, 1, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD);
-- 
2.43.0


From a6fb96b7abe6adf6f12806be9b700c766519ce73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:59 +0000
Subject: [PATCH 37/60] fix: quasi-static runs on meshes whose node ids are not
 consecutive

---
 src/integrators/quasistatic_time_integrator.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/integrators/quasistatic_time_integrator.cc b/src/integrators/quasistatic_time_integrator.cc
index b59fb70..c9168f9 100644
--- a/src/integrators/quasistatic_time_integrator.cc
+++ b/src/integrators/quasistatic_time_integrator.cc
@@ -149,11 +149,15 @@ QuasistaticTimeIntegrator::Integrate()
   // Store various mappings from global to local node ids
   std::vector<int>                linear_system_global_node_ids;
   std::map<int, std::vector<int>> map_from_linear_system;
+  // The global node ids of a mesh need not be consecutive, number the nodes of the linear system in the same order
+  std::map<int, int> linear_system_node_id;
+  for (int n = 0; n < num_nodes; ++n) { linear_system_node_id[global_node_ids[n]] = 0; }
+  int num_distinct_nodes = 0;
+  for (auto& it : linear_system_node_id) { it.second = num_distinct_nodes++; }
   for (int n = 0; n < num_nodes; ++n) {
-    int global_node_id = global_node_ids[n];
-    linear_system_global_node_ids.push_back(global_node_id);
-    map_from_linear_system[global_node_id] = std::vector<int>();
-    map_from_linear_system[global_node_id].push_back(n);
+    int node_id = linear_system_node_id.at(global_node_ids[n]);
+    linear_system_global_node_ids.push_back(node_id);
+    map_from_linear_system[node_id].push_back(n);
   }
   int linear_system_num_nodes    = static_cast<int>(map_from_linear_system.size());
   int linear_system_num_unknowns = linear_system_num_nodes * dim;
-- 
2.43.0


From 64b45302d07fdae924422d62bea67662bbbe518e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:59 +0000
Subject: [PATCH 38/60] fix: element data of a quasi-static step belong to the
 accepted displacement

---
 src/integrators/quasistatic_time_integrator.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/integrators/quasistatic_time_integrator.cc b/src/integrators/quasistatic_time_integrator.cc
index c9168f9..ea0fe7c 100644
--- a/src/integrators/quasistatic_time_integrator.cc
+++ b/src/integrators/quasistatic_time_integrator.cc
@@ -387,10 +387,20 @@ QuasistaticTimeIntegrator::Integrate()
 
       // if the alpha = 1.0 result was better, use alpha = 1.0
       if (trial_residual < residual) {
-        residual = trial_residual;
         displacement.copy(trial_displacement);
-        internal_force.copy(trial_internal_force);
-        for (int i = 0; i < linear_system_num_unknowns; i++) { residual_vector[i] = trial_residual_vector[i]; }
+        // evaluate again, so that the element data are those of the accepted displacement as well
+        residual = ComputeQuasistaticResidual(
+            mesh,
+            data_manager,
+            bc,
+            linear_system_num_unknowns,
+            linear_system_global_node_ids,
+            time_previous,
+            time_current,
+            displacement,
+            internal_force,
+            residual_vector.data(),
+            is_output_step);
       }
 
       iteration += 1;
-- 
2.43.0


From d49cef9c12c41e6452b44bdda1e7b44c36b00664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:59 +0000
Subject: [PATCH 39/60] fix: quasi-static steps succeed exactly when the
 residual has converged

---
 src/integrators/quasistatic_time_integrator.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/integrators/quasistatic_time_integrator.cc b/src/integrators/quasistatic_time_integrator.cc
index ea0fe7c..9d4cbdc 100644
--- a/src/integrators/quasistatic_time_integrator.cc
+++ b/src/integrators/quasistatic_time_integrator.cc
@@ -412,7 +412,8 @@ QuasistaticTimeIntegrator::Integrate()
 
     }  // while (residual > convergence_tolerance ... )
 
-    if (iteration == max_nonlinear_iterations) {
+    // Written such that a residual which is not a number counts as a failure
+    if (!(residual <= convergence_tolerance)) {
       if (my_rank == 0) {
         std::cout << "\n**** Nonlinear solver failed to converge!\n" << std::endl;
         std::cout << "**** Relevant input deck parameters for the nonlinear solver:" << std::endl;
-- 
2.43.0


From 3eacd302ce1eca0367d9996c0673933ae1290aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:59 +0000
Subject: [PATCH 40/60] fix: component labels of full tensors in two dimensions

---
 src/nimble_data_utils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_data_utils.cc b/src/nimble_data_utils.cc
index 79fa156..f19fa04 100644
--- a/src/nimble_data_utils.cc
+++ b/src/nimble_data_utils.cc
@@ -183,7 +183,7 @@ GetComponentLabels(std::string label, Length length, int dim)
       labels.push_back(label + "_xx");
       labels.push_back(label + "_yy");
       labels.push_back(label + "_xy");
-      labels.push_back(label + "_xy");
+      labels.push_back(label + "_yx");
     } else if (dim == 3) {
       labels.push_back(label + "_xx");
       labels.push_back(label + "_yy");
-- 
2.43.0


From fcc8806bd631694cd0ea03858a88b6b3d1106982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:59 +0000
Subject: [PATCH 41/60] fix: labels that only begin like an integration point
 prefix

---
 src/nimble_data_utils.cc | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/src/nimble_data_utils.cc b/src/nimble_data_utils.cc
index f19fa04..f312317 100644
--- a/src/nimble_data_utils.cc
+++ b/src/nimble_data_utils.cc
@@ -100,22 +100,11 @@ RemoveIntegrationPointPrefix(std::string label)
 {
   std::string stripped_label(label);
 
-  size_t pos = label.find("ipt");
-  if (pos == 0) {
-    // remove "ipt"
-    std::string temp = label.substr(3);
-    // strip off integers, they are the integration point number
-    // the initial value of 1 is for the trailing underscore
-    int  num_digits   = 1;
-    bool first_digits = true;
-    for (char& c : temp) {
-      if (first_digits && isdigit(c)) {
-        num_digits++;
-      } else {
-        first_digits = false;
-      }
-    }
-    stripped_label = temp.substr(num_digits);
+  if (label.find("ipt") == 0) {
+    // the prefix is "ipt", the integration point number, and an underscore
+    size_t pos = 3;
+    while (pos < label.size() && isdigit(label[pos])) { pos++; }
+    if (pos > 3 && pos < label.size() && label[pos] == '_') { stripped_label = label.substr(pos + 1); }
   }
   return stripped_label;
 }
-- 
2.43.0


From 4118c68ffc2db77e05f5e17fc34c9fb973ae5b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:59 +0000
Subject: [PATCH 42/60] fix: single component labels of fields with a plain
 length

---
 src/nimble_data_utils.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nimble_data_utils.cc b/src/nimble_data_utils.cc
index f312317..191492f 100644
--- a/src/nimble_data_utils.cc
+++ b/src/nimble_data_utils.cc
@@ -247,6 +247,11 @@ GetComponentLabel(std::string label, Length length, int dim, int component_index
         default: throw std::invalid_argument("\nError in GetComponentLabel().\n");
       }
     }
+  } else if (length != SCALAR) {
+    if (component_index < 0 || component_index >= LengthToInt(length, dim)) {
+      throw std::invalid_argument("\nError in GetComponentLabel().\n");
+    }
+    label += "_" + std::to_string(component_index + 1);
   }
 
   label = AddIntegrationPointPrefix(label, ipt);
-- 
2.43.0


From 889a0964a87f0d417d051d51ddc6b0b47c378811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:09 +0000
Subject: [PATCH 43/60] fix: repeated blanks between output fields on the plain
 path

---
 src/nimble_model_data.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_model_data.cc b/src/nimble_model_data.cc
index 24a8210..deb9e36 100644
--- a/src/nimble_model_data.cc
+++ b/src/nimble_model_data.cc
@@ -219,7 +219,7 @@ ModelData::SpecifyOutputFields(const std::string& output_field_string)
   std::vector<std::string> requested_output_labels;
   std::stringstream        ss(output_field_string);
   std::string              entry;
-  while (std::getline(ss, entry, ' ')) { requested_output_labels.push_back(entry); }
+  while (ss >> entry) { requested_output_labels.push_back(entry); }
 
   std::vector<std::string> node_noncomponent_labels;
   std::vector<std::string> node_component_labels;
-- 
2.43.0


From 98786202a6b3a107a9b00b29f26eaea16ed43db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:01 +0000
Subject: [PATCH 44/60] fix: tractions do not end quasi-static runs with a
 missing node set

---
 src/nimble_boundary_condition_manager.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nimble_boundary_condition_manager.cc b/src/nimble_boundary_condition_manager.cc
index d2a1f1a..b27f3e4 100644
--- a/src/nimble_boundary_condition_manager.cc
+++ b/src/nimble_boundary_condition_manager.cc
@@ -101,10 +101,10 @@ BoundaryConditionManager::ModifyTangentStiffnessMatrixForKinematicBC(
     BoundaryCondition const& bc          = boundary_conditions_[i_bc];
     int                      node_set_id = bc.node_set_id_;
     int                      coordinate  = bc.coordinate_;
-    std::vector<int> const&  node_set    = node_sets_.at(node_set_id);
 
     if (bc.bc_type_ == BoundaryCondition::PRESCRIBED_DISPLACEMENT ||
         bc.bc_type_ == BoundaryCondition::PRESCRIBED_VELOCITY) {
+      std::vector<int> const& node_set = node_sets_.at(node_set_id);
       for (unsigned int n = 0; n < node_set.size(); n++) {
         int index = global_node_ids[node_set[n]] * dim_ + coordinate;
         tangent_stiffness.SetRowValues(index, 0.0);
@@ -137,10 +137,10 @@ BoundaryConditionManager::ModifyRHSForKinematicBC(const int* const global_node_i
     BoundaryCondition const& bc          = boundary_conditions_[i_bc];
     int                      node_set_id = bc.node_set_id_;
     int                      coordinate  = bc.coordinate_;
-    std::vector<int> const&  node_set    = node_sets_.at(node_set_id);
 
     if (bc.bc_type_ == BoundaryCondition::PRESCRIBED_DISPLACEMENT ||
         bc.bc_type_ == BoundaryCondition::PRESCRIBED_VELOCITY) {
+      std::vector<int> const& node_set = node_sets_.at(node_set_id);
       for (unsigned int n = 0; n < node_set.size(); n++) {
         rhs[global_node_ids[node_set[n]] * dim_ + coordinate] = 0.0;
       }
-- 
2.43.0


From 360a1c78504e259139c8bc8fa6cfaa6bcdf7c202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:36 +0000
Subject: [PATCH 45/60] fix: ComputeDerivedElementData declares zero-length
 arrays when only the volume is written

---
 src/nimble_block.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/nimble_block.cc b/src/nimble_block.cc
index 3b2dff4..cc4eeb1 100644
--- a/src/nimble_block.cc
+++ b/src/nimble_block.cc
@@ -466,9 +466,9 @@ Block::ComputeDerivedElementData(
   // volume and volume-averaged quantities
   double       cur_coord[vector_size * num_node_per_elem];
   unsigned int num_vol_ave_data = vol_ave_offsets_.size() / num_int_pt_per_elem;
-  double       int_pt_quantities[num_vol_ave_data * num_int_pt_per_elem];
+  std::vector<double> int_pt_quantities(num_vol_ave_data * num_int_pt_per_elem);
   double       volume;
-  double       vol_ave_quantities[num_vol_ave_data];
+  std::vector<double> vol_ave_quantities(num_vol_ave_data);
 
   // Loop over each element and compute element volume and volume-averaged
   // quantities
@@ -486,7 +486,8 @@ Block::ComputeDerivedElementData(
     }
 
     // Compute element volume and volume-averaged quantities
-    element_->ComputeVolumeAverage(cur_coord, num_vol_ave_data, &int_pt_quantities[0], volume, vol_ave_quantities);
+    element_->ComputeVolumeAverage(
+        cur_coord, num_vol_ave_data, int_pt_quantities.data(), volume, vol_ave_quantities.data());
 
     // Copy the results into the global containers for derived data
     for (int i = 0; i < num_vol_ave_data; i++) {
-- 
2.43.0


From 1efd38d8b95b48931b8ade86d378563c0483f629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:36 +0000
Subject: [PATCH 46/60] fix: computing the lumped mass again adds to the
 earlier one on the plain path

---
 src/nimble_model_data.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nimble_model_data.cc b/src/nimble_model_data.cc
index deb9e36..fd0c780 100644
--- a/src/nimble_model_data.cc
+++ b/src/nimble_model_data.cc
@@ -508,6 +508,7 @@ ModelData::ComputeLumpedMass(nimble::DataManager& data_manager)
   // Computed the lumped mass matrix (diagonal matrix) and the critical time
   // step
   //
+  GetScalarNodeData(lumped_mass_field_id).zero();
   critical_time_step_ = std::numeric_limits<double>::max();
   for (auto& block_it : blocks_) {
     int        block_id          = block_it.first;
-- 
2.43.0


From e044241fc8d1b14d25354ed220d9f987b112bb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:31 +0000
Subject: [PATCH 47/60] fix: IOFileName keeps directories, inner dots and
 spaces of file names

---
 src/nimble_parser.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/nimble_parser.cc b/src/nimble_parser.cc
index df01457..070419d 100644
--- a/src/nimble_parser.cc
+++ b/src/nimble_parser.cc
@@ -67,10 +67,11 @@ IOFileName(
   if (serial_name == "none") { return serial_name; }
 
   std::string file_name = serial_name;
-  size_t      pos       = file_name.rfind(".g");
-  if (pos != std::string::npos) { file_name = file_name.substr(0, pos); }
-  pos = file_name.rfind(".e");
-  if (pos != std::string::npos) { file_name = file_name.substr(0, pos); }
+  // strip off the extension, if any
+  size_t pos = file_name.find_last_of("./");
+  if (pos != std::string::npos && (file_name.compare(pos, 2, ".g") == 0 || file_name.compare(pos, 2, ".e") == 0)) {
+    file_name = file_name.substr(0, pos);
+  }
   if (!label.empty()) { file_name += "." + label; }
   file_name += "." + extension;
   if (num_ranks > 1) {
@@ -83,8 +84,7 @@ IOFileName(
     ss << file_name << "." << num_ranks << ".";
     for (int i = 0; i < num_zero_padding; i++) { ss << 0; }
     ss << my_rank;
-    // file_name += ss.str(); // DJL not thread safe??
-    ss >> file_name;
+    file_name = ss.str();
   }
   return file_name;
 }
-- 
2.43.0


From 702cf9bc4e6c84c83046cb924430eb6b30f25827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:44 +0000
Subject: [PATCH 48/60] fix: an ensemble (UQ) run crashes, it gets no plain
 material factory

---
 src/nimble.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nimble.cc b/src/nimble.cc
index 5637d18..ae2cc34 100644
--- a/src/nimble.cc
+++ b/src/nimble.cc
@@ -274,7 +274,8 @@ NimbleApplication::CreateCLI(int argc, char **argv)
 std::unique_ptr< MaterialFactoryBase >
 NimbleApplication::CreateMaterialFactory()
 {
-  if (impl_->parser_->TimeIntegrationScheme() == "quasistatic") return std::make_unique<nimble::MaterialFactory>();
+  if (impl_->parser_->UseUQ() || impl_->parser_->TimeIntegrationScheme() == "quasistatic")
+    return std::make_unique<nimble::MaterialFactory>();
   return std::make_unique<nimble_kokkos::MaterialFactory>();
 }
 
-- 
2.43.0


From 5eac1fad42cbb6d2eef2abd9e53533e3be70a69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:44 +0000
Subject: [PATCH 49/60] fix: ensemble runs reduce one force vector too many
 over the ranks

---
 src/uq/nimble_uq_model_data.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uq/nimble_uq_model_data.cc b/src/uq/nimble_uq_model_data.cc
index 58c090d..6481387 100644
--- a/src/uq/nimble_uq_model_data.cc
+++ b/src/uq/nimble_uq_model_data.cc
@@ -209,7 +209,7 @@ ModelData::ComputeInternalForce(
   constexpr int vector_dimension = 3;
   vector_comm->VectorReduction(vector_dimension, force.data());
   int num_exact_trajectories = uq_model_->GetNumExactSamples();
-  for(int i=0; i <= num_exact_trajectories; i++){
+  for(int i=0; i < num_exact_trajectories; i++){
     vector_comm->VectorReduction(vector_dimension,uq_model_->Forces()[i]);
   }
 
-- 
2.43.0


From b4947379539018d64e35a6b141c955c846a2818c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:44 +0000
Subject: [PATCH 50/60] fix: prescribed displacements do not act on the samples
 of an ensemble

---
 src/nimble_boundary_condition_manager.h | 11 ++++++++++-
 src/uq/nimble_uq_model_data.cc          |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/nimble_boundary_condition_manager.h b/src/nimble_boundary_condition_manager.h
index 3c663b6..af1bdf0 100644
--- a/src/nimble_boundary_condition_manager.h
+++ b/src/nimble_boundary_condition_manager.h
@@ -141,6 +141,7 @@ class BoundaryConditionManager
       const ViewT         reference_coordinates,
       ViewT               displacement,
       ViewT               velocity,
+      std::vector<ViewT>& offnom_displacements,
       std::vector<ViewT>& offnom_velocities)
   {
     double delta_t = time_current - time_previous;
@@ -185,6 +186,10 @@ class BoundaryConditionManager
           double displacement_magnitude = bc.magnitude_;
           for (int n : node_set) {
             velocity(n, coordinate) = (displacement_magnitude - displacement(n, coordinate)) / delta_t;
+            for (int nuq = 0; nuq < offnom_velocities.size(); nuq++) {
+              offnom_velocities[nuq](n, coordinate) =
+                  (displacement_magnitude - offnom_displacements[nuq](n, coordinate)) / delta_t;
+            }
             if (time_integration_scheme_ == QUASISTATIC) { displacement(n, coordinate) = displacement_magnitude; }
           }
         } else {
@@ -196,6 +201,10 @@ class BoundaryConditionManager
             bc.expression_.t              = time_current;
             double displacement_magnitude = bc.expression_.eval();
             velocity(n, coordinate)       = (displacement_magnitude - displacement(n, coordinate)) / delta_t;
+            for (int nuq = 0; nuq < offnom_velocities.size(); nuq++) {
+              offnom_velocities[nuq](n, coordinate) =
+                  (displacement_magnitude - offnom_displacements[nuq](n, coordinate)) / delta_t;
+            }
             if (time_integration_scheme_ == QUASISTATIC) { displacement(n, coordinate) = displacement_magnitude; }
           }
         }
@@ -213,7 +222,7 @@ class BoundaryConditionManager
       ViewT       velocity)
   {
     std::vector<ViewT> empty;
-    ApplyKinematicBC(time_current, time_previous, reference_coordinates, displacement, velocity, empty);
+    ApplyKinematicBC(time_current, time_previous, reference_coordinates, displacement, velocity, empty, empty);
   }
 
   template <typename MatT>
diff --git a/src/uq/nimble_uq_model_data.cc b/src/uq/nimble_uq_model_data.cc
index 6481387..d985db9 100644
--- a/src/uq/nimble_uq_model_data.cc
+++ b/src/uq/nimble_uq_model_data.cc
@@ -139,7 +139,7 @@ ModelData::ApplyKinematicConditions(nimble::DataManager& data_manager, double ti
   auto reference_coordinate = GetVectorNodeData("reference_coordinate");
   auto displacement         = GetVectorNodeData("displacement");
   auto velocity             = GetVectorNodeData("velocity");
-  bc->ApplyKinematicBC( time_current, time_previous, reference_coordinate, displacement, velocity, velocity_views_); // applied to all 
+  bc->ApplyKinematicBC( time_current, time_previous, reference_coordinate, displacement, velocity, displacement_views_, velocity_views_); // applied to all 
 }
 
 void
-- 
2.43.0


From 35de9d0c2712cc32835203183d92c179e310f300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:44 +0000
Subject: [PATCH 51/60] fix: uncertain parameters are read in the order of
 material names, not of the input deck

---
 src/nimble_parser.cc           | 2 +-
 src/nimble_parser.h            | 7 ++++---
 src/uq/nimble_uq_model_data.cc | 2 +-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/nimble_parser.cc b/src/nimble_parser.cc
index 070419d..c148404 100644
--- a/src/nimble_parser.cc
+++ b/src/nimble_parser.cc
@@ -345,7 +345,7 @@ Parser::ParseKeyValue(const std::string& key, const std::string& value)
     size_t      space_pos                = value.find(" ");
     std::string material_key             = value.substr(0, space_pos);
     std::string uq_params                = value.substr(space_pos + 1, value.size());
-    uq_parameters_strings_[material_key] = uq_params;
+    uq_parameters_strings_.emplace_back(material_key, uq_params);
   } else if (key == "uq model") {
     uq_model_string_ = value;
   }
diff --git a/src/nimble_parser.h b/src/nimble_parser.h
index ba9cb3f..a067632 100644
--- a/src/nimble_parser.h
+++ b/src/nimble_parser.h
@@ -375,7 +375,8 @@ class Parser
   {
     return uq_model_string_;
   }
-  std::map<std::string, std::string> const&
+  /// \brief Uncertain parameters by material, in the order of the input deck
+  std::vector<std::pair<std::string, std::string>> const&
   UqParamsStrings() const
   {
     return uq_parameters_strings_;
@@ -425,8 +426,8 @@ class Parser
 #endif
 
 #ifdef NIMBLE_HAVE_UQ
-  std::map<std::string, std::string> uq_parameters_strings_;
-  std::string                        uq_model_string_;
+  std::vector<std::pair<std::string, std::string>> uq_parameters_strings_;
+  std::string                                      uq_model_string_;
 #endif
 
   //--- Variables related to environment
diff --git a/src/uq/nimble_uq_model_data.cc b/src/uq/nimble_uq_model_data.cc
index d985db9..1e7f92f 100644
--- a/src/uq/nimble_uq_model_data.cc
+++ b/src/uq/nimble_uq_model_data.cc
@@ -74,7 +74,7 @@ ModelData::InitializeBlocks(
   std::vector<int> block_ids = mesh_.GetBlockIds();
   uq_model_                  = std::shared_ptr<nimble::UqModel>(new nimble::UqModel(dim_, &mesh_, this));
   uq_model_->ParseConfiguration(parser_.UqModelString());
-  std::map<std::string, std::string> lines = parser_.UqParamsStrings();
+  auto const& lines = parser_.UqParamsStrings();
   for (auto& line : lines) {
     std::string        material_key            = line.first;
     int                block_id                = parser_.GetBlockIdFromMaterial(material_key);
-- 
2.43.0


From 93c74042272ee357d718a3ca618ad548cdcee3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:44 +0000
Subject: [PATCH 52/60] fix: ensemble runs crash on blocks that share a
 material or have no uncertain parameter

---
 src/nimble_parser.h            |  6 ++++++
 src/uq/nimble_uq.cc            | 13 +++++++++++++
 src/uq/nimble_uq.h             | 11 ++++++++++-
 src/uq/nimble_uq_model_data.cc | 11 +++++++++++
 4 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/src/nimble_parser.h b/src/nimble_parser.h
index a067632..9f808d9 100644
--- a/src/nimble_parser.h
+++ b/src/nimble_parser.h
@@ -224,6 +224,12 @@ class Parser
     return material_props;
   }
 
+  std::string const&
+  GetMaterialKey(int block_id) const
+  {
+    return model_blocks_.at(block_id).material_key_;
+  }
+
   int
   GetBlockIdFromMaterial(const std::string& material_key) const
   {
diff --git a/src/uq/nimble_uq.cc b/src/uq/nimble_uq.cc
index 9391b74..8d6677a 100644
--- a/src/uq/nimble_uq.cc
+++ b/src/uq/nimble_uq.cc
@@ -143,6 +143,19 @@ UqModel::ParseBlockInput(
 }
 //===========================================================================
 void
+UqModel::AssignParameters(
+    int                                                 block_id,
+    int                                                 material_block_id,
+    std::string const&                                  nominal_params_string,
+    const std::shared_ptr<nimble::MaterialFactoryBase>& material_factory)
+{
+  material_block_[block_id] = material_block_id;
+  if (nominal_parameters_.find(material_block_id) == nominal_parameters_.end()) {
+    nominal_parameters_[material_block_id] = material_factory->parse_material_params_string(nominal_params_string);
+  }
+}
+//===========================================================================
+void
 UqModel::ReadSamples()
 {
   std::ifstream          f(samples_file_name_);
diff --git a/src/uq/nimble_uq.h b/src/uq/nimble_uq.h
index 1b1b1f6..1e530ec 100644
--- a/src/uq/nimble_uq.h
+++ b/src/uq/nimble_uq.h
@@ -76,6 +76,14 @@ class UqModel
       bool                                                block_id_present,
       std::map<int, std::shared_ptr<nimble::Block>>&      blocks);
 
+  // parameters of a block: those of the block that stands for its material
+  void
+  AssignParameters(
+      int                                                 block_id,
+      int                                                 material_block_id,
+      std::string const&                                  nominal_params_string,
+      const std::shared_ptr<nimble::MaterialFactoryBase>& material_factory);
+
   // pre time integration
   void
   Initialize();
@@ -151,7 +159,7 @@ class UqModel
   std::map<std::string,double>
   Parameters(int block_id, int sample_i) 
   {
-    return parameters_[block_id][sample_i];
+    return parameters_.at(material_block_.at(block_id)).at(sample_i);
   }
 
  private:
@@ -169,6 +177,7 @@ class UqModel
   std::string                      samples_file_name_;
   std::map<int,std::map<std::string,double>> nominal_parameters_; 
   std::map<int,std::map<std::string,double>> parameter_uncertainties_; 
+  std::map<int,int> material_block_; // block that holds the parameters of a block's material
   std::vector<std::pair<int,std::string>> parameter_order_;
   std::vector<std::vector<double>> parameter_samples_;  // ns,np
   std::vector<std::vector<double>> interpolation_coefficients_;  // na,np
diff --git a/src/uq/nimble_uq_model_data.cc b/src/uq/nimble_uq_model_data.cc
index 1e7f92f..223d9e1 100644
--- a/src/uq/nimble_uq_model_data.cc
+++ b/src/uq/nimble_uq_model_data.cc
@@ -79,10 +79,21 @@ ModelData::InitializeBlocks(
     std::string        material_key            = line.first;
     int                block_id                = parser_.GetBlockIdFromMaterial(material_key);
     std::string        uq_params_this_material = line.second;
+    if (block_id < 0) {
+      throw std::invalid_argument("\nError: uq parameters are specified for material " + material_key + " which no block uses\n");
+    }
     std::string const& nominal_params_string   = parser_.GetModelMaterialParameters(block_id);
     bool               block_id_present = std::find(block_ids.begin(), block_ids.end(), block_id) != block_ids.end();
     uq_model_->ParseBlockInput(uq_params_this_material, block_id, nominal_params_string, material_factory_base, block_id_present, blocks_);
   }
+  // blocks share the samples of their material, materials without uncertain parameters keep their nominal ones
+  for (int block_id : block_ids) {
+    uq_model_->AssignParameters(
+        block_id,
+        parser_.GetBlockIdFromMaterial(parser_.GetMaterialKey(block_id)),
+        parser_.GetModelMaterialParameters(block_id),
+        material_factory_base);
+  }
   //
   uq_model_->Initialize();
   //
-- 
2.43.0


From 0280dbc8939b534f6a1c9ae3f86449da306d784b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:44 +0000
Subject: [PATCH 53/60] fix: faulty ensemble input is accepted or crashes
 instead of being reported

---
 src/uq/nimble_uq.cc | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/uq/nimble_uq.cc b/src/uq/nimble_uq.cc
index 8d6677a..eaa866d 100644
--- a/src/uq/nimble_uq.cc
+++ b/src/uq/nimble_uq.cc
@@ -93,14 +93,10 @@ void
 UqModel::ParseConfiguration(std::string const& line)
 {
   std::list<std::string> items = split(line);
-  std::string sampling = items.front();
-  items.pop_front();
-  if (sampling == "file") {
-    samples_file_name_ = items.front();
-    items.pop_front();
-  } else { 
-    std::cerr << " !! Error when parsing UQ parameters : !! \n";
+  if (items.size() != 2 || items.front() != "file") {
+    throw std::invalid_argument("\nError: uq model is \"" + line + "\" but the allowable syntax is \"file <file_name>\"\n");
   }
+  samples_file_name_ = items.back();
 }
 //===========================================================================
 // parses: 
@@ -122,9 +118,15 @@ UqModel::ParseBlockInput(
   int  start_idx = GetNumParameters(); // number of parameter from previous blocks
   // collect ranges of the uncertain parameters
   std::list<std::string> items     = split(line);
+  // get nominal parameters
+  std::map<std::string, double> parameters = material_factory->parse_material_params_string(nominal_params_string);
+  nominal_parameters_[block_id] = parameters;
   while (items.size() > 0) {
       std::string pname = items.front();
       items.pop_front();
+      if (items.empty() || parameters.find(pname) == parameters.end()) {
+        throw std::invalid_argument( "\nError: uq parameters \"" + line + "\" for material corresponding to block id " + std::to_string(block_id) + " are not pairs of a parameter of the material and its range\n");
+      }
       double range = std::stod(items.front());
       items.pop_front();
       parameter_uncertainties_[block_id][pname] = range;
@@ -133,9 +135,6 @@ UqModel::ParseBlockInput(
       nparameters_++;
   }
 
-  // get nominal parameters
-  std::map<std::string, double> parameters = material_factory->parse_material_params_string(nominal_params_string);
-  nominal_parameters_[block_id] = parameters;
 //std::cout << " K  " << parameters["bulk_modulus"];
 //std::cout << " G  " << parameters["shear_modulus"];
 
@@ -162,15 +161,28 @@ UqModel::ReadSamples()
   std::string            line;
   std::list<std::string> items;
 
-  // read 1st line
+  // reads the next line, which has to be there
   int linenumber = 0;
-  getline(f, line); linenumber++;
+  auto next_line = [&]() {
+    linenumber++;
+    if (!getline(f, line)) {
+      throw std::invalid_argument("\nError: UQ file " + samples_file_name_ + " has no line " + std::to_string(linenumber) + "\n");
+    }
+  };
+  // read 1st line
+  next_line();
   items.clear();
   items = split(line);
+  if (items.size() < 2) {
+    throw std::invalid_argument("\nError: UQ file " + samples_file_name_ + " does not begin with the numbers of exact and approximate samples\n");
+  }
   nexact_samples_ = std::stoi(items.front()); // in addition to the nominal
   items.pop_front();
   napprox_samples_ = std::stoi(items.front());
   items.pop_front();
+  if (nexact_samples_ < 0 || napprox_samples_ < 0) {
+    throw std::invalid_argument("\nError: UQ file " + samples_file_name_ + " has a negative number of samples\n");
+  }
   nsamples_ = napprox_samples_ + nexact_samples_;
 
   parameter_samples_.resize(nsamples_);
@@ -180,7 +192,7 @@ UqModel::ReadSamples()
   //--{exact_smpl_1_P1} {exact_smpl_1_P2}
   //--{exact_smpl_2_P1} {exact_smpl_2_P2}
   for (int nsmpl = 0; nsmpl < nexact_samples_; nsmpl++) {
-    getline(f, line); linenumber++;
+    next_line();
     items.clear();
     items = split(line);
     if (items.size() != nparameters_) {
@@ -198,7 +210,7 @@ UqModel::ReadSamples()
   //--{approx_smpl_2_P1} {approx_smpl_2_P2} : {interp_coeff_1} {interp_coeff_2}
   int ncoeff = nexact_samples_ + 1; // including nominal
   for (int nsmpl = 0; nsmpl < napprox_samples_; nsmpl++) {
-    getline(f, line); linenumber++;
+    next_line();
     size_t colon_pos = line.find(":");
     if (colon_pos == std::string::npos) {
       throw std::invalid_argument( "\nError: UQ file " + samples_file_name_ + " has wrong format (no colon) on line " + std::to_string(linenumber) + "\n");
-- 
2.43.0


From 1da91fb59412667b195e73f9274eaad202c39664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:46 +0000
Subject: [PATCH 54/60] fix: the declared initial values of a material's state
 variables are ignored

---
 src/nimble_block.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_block.cc b/src/nimble_block.cc
index cc4eeb1..2ecfbda 100644
--- a/src/nimble_block.cc
+++ b/src/nimble_block.cc
@@ -179,7 +179,7 @@ Block::InitializeElementData(
     std::string ipt_label = RemoveIntegrationPointPrefix(label);
 
     double initial_value = 0.0;
-    auto   it            = state_variable_initial_values.find(label);
+    auto   it            = state_variable_initial_values.find(ipt_label);
     if (it != state_variable_initial_values.end()) { initial_value = it->second; }
 
     for (int i_elem = 0; i_elem < num_elem_in_block; ++i_elem) {
-- 
2.43.0


From 1a8198364fa05f5cadd318003c95384912ff257e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:46 +0000
Subject: [PATCH 55/60] fix: materials with state variables crash the portable
 evaluation path

---
 src/nimble_kokkos_defs.h        | 60 ++++++++++++++++++++++++++++--
 src/nimble_kokkos_model_data.cc | 66 ++++++++++++++++++---------------
 2 files changed, 92 insertions(+), 34 deletions(-)

diff --git a/src/nimble_kokkos_defs.h b/src/nimble_kokkos_defs.h
index 052c256..a46fd12 100644
--- a/src/nimble_kokkos_defs.h
+++ b/src/nimble_kokkos_defs.h
@@ -95,7 +95,9 @@ enum class FieldType : int
   DeviceSymTensorIntPt,
   HostFullTensorIntPt,
   DeviceFullTensorIntPt,
+  HostScalarIntPt,
   DeviceScalarIntPt,
+  HostVectorIntPt,
   DeviceVectorIntPt,
   HostScalarElem,
   DeviceScalarElem,
@@ -117,7 +119,9 @@ operator<<(std::ostream& out, const FieldType f)
     case FieldType::DeviceSymTensorIntPt: out << "DeviceSymTensorIntPt"; break;
     case FieldType::HostFullTensorIntPt: out << "HostFullTensorIntPt"; break;
     case FieldType::DeviceFullTensorIntPt: out << "DeviceFullTensorIntPt"; break;
+    case FieldType::HostScalarIntPt: out << "HostScalarIntPt"; break;
     case FieldType::DeviceScalarIntPt: out << "DeviceScalarIntPt"; break;
+    case FieldType::HostVectorIntPt: out << "HostVectorIntPt"; break;
     case FieldType::DeviceVectorIntPt: out << "DeviceVectorIntPt"; break;
     case FieldType::HostScalarElem: out << "HostScalarElem"; break;
     case FieldType::DeviceScalarElem: out << "DeviceScalarElem"; break;
@@ -369,6 +373,30 @@ class Field<FieldType::DeviceFullTensorIntPt> : public FieldBase
   View data_;
 };
 
+template <>
+class Field<FieldType::HostScalarIntPt> : public FieldBase
+{
+ public:
+  // (elem, ipt, scalar)
+  using View = Kokkos::View<double* [NUM_INTEGRATION_POINTS_IN_HEX][1], kokkos_layout, kokkos_host>;
+
+  Field(const std::string& name, int num_entries)
+      : FieldBase(name, FieldType::HostScalarIntPt), data_(name, num_entries)
+  {
+  }
+
+  Field(View const& v) : FieldBase(v.label(), FieldType::HostScalarIntPt), data_(v) {}
+
+  View
+  data() const noexcept
+  {
+    return data_;
+  }
+
+ private:
+  View data_;
+};
+
 template <>
 class Field<FieldType::DeviceScalarIntPt> : public FieldBase
 {
@@ -379,11 +407,35 @@ class Field<FieldType::DeviceScalarIntPt> : public FieldBase
   using SingleEntryView = decltype(Kokkos::subview(*(View*)(0), (int)(0), (int)(0), Kokkos::ALL));
 
   Field(const std::string& name, int num_entries)
-      : FieldBase(name, FieldType::DeviceFullTensorIntPt), data_(name, num_entries)
+      : FieldBase(name, FieldType::DeviceScalarIntPt), data_(name, num_entries)
   {
   }
 
-  Field(View const& v) : FieldBase(v.label(), FieldType::DeviceFullTensorIntPt), data_(v) {}
+  Field(View const& v) : FieldBase(v.label(), FieldType::DeviceScalarIntPt), data_(v) {}
+
+  View
+  data() const noexcept
+  {
+    return data_;
+  }
+
+ private:
+  View data_;
+};
+
+template <>
+class Field<FieldType::HostVectorIntPt> : public FieldBase
+{
+ public:
+  // (elem, ipt, vector_index)
+  using View = Kokkos::View<double* [NUM_INTEGRATION_POINTS_IN_HEX][3], kokkos_layout, kokkos_host>;
+
+  Field(const std::string& name, int num_entries)
+      : FieldBase(name, FieldType::HostVectorIntPt), data_(name, num_entries)
+  {
+  }
+
+  Field(View const& v) : FieldBase(v.label(), FieldType::HostVectorIntPt), data_(v) {}
 
   View
   data() const noexcept
@@ -405,11 +457,11 @@ class Field<FieldType::DeviceVectorIntPt> : public FieldBase
   using SingleEntryView = decltype(Kokkos::subview(*(View*)(0), (int)(0), (int)(0), Kokkos::ALL));
 
   Field(const std::string& name, int num_entries)
-      : FieldBase(name, FieldType::DeviceFullTensorIntPt), data_(name, num_entries)
+      : FieldBase(name, FieldType::DeviceVectorIntPt), data_(name, num_entries)
   {
   }
 
-  Field(View const& v) : FieldBase(v.label(), FieldType::DeviceFullTensorIntPt), data_(v) {}
+  Field(View const& v) : FieldBase(v.label(), FieldType::DeviceVectorIntPt), data_(v) {}
 
   View
   data() const noexcept
diff --git a/src/nimble_kokkos_model_data.cc b/src/nimble_kokkos_model_data.cc
index 1738008..28e2740 100644
--- a/src/nimble_kokkos_model_data.cc
+++ b/src/nimble_kokkos_model_data.cc
@@ -787,14 +787,14 @@ ModelData::AllocateIntegrationPointData(
 
   if (length == nimble::SCALAR) {
     device_integration_point_data_step_n_.at(block_index)
-        .emplace_back(new Field<FieldType::DeviceScalarNode>(label, num_objects));
+        .emplace_back(new Field<FieldType::DeviceScalarIntPt>(label, num_objects));
     device_integration_point_data_step_np1_.at(block_index)
-        .emplace_back(new Field<FieldType::DeviceScalarNode>(label, num_objects));
+        .emplace_back(new Field<FieldType::DeviceScalarIntPt>(label, num_objects));
   } else if (length == nimble::VECTOR) {
     device_integration_point_data_step_n_.at(block_index)
-        .emplace_back(new Field<FieldType::DeviceVectorNode>(label, num_objects));
+        .emplace_back(new Field<FieldType::DeviceVectorIntPt>(label, num_objects));
     device_integration_point_data_step_np1_.at(block_index)
-        .emplace_back(new Field<FieldType::DeviceVectorNode>(label, num_objects));
+        .emplace_back(new Field<FieldType::DeviceVectorIntPt>(label, num_objects));
   } else if (length == nimble::SYMMETRIC_TENSOR) {
     device_integration_point_data_step_n_.at(block_index)
         .emplace_back(new Field<FieldType::DeviceSymTensorIntPt>(label, num_objects));
@@ -817,48 +817,54 @@ ModelData::AllocateIntegrationPointData(
   FieldBase* d_field_step_n   = device_integration_point_data_step_n_.at(block_index).back().get();
   FieldBase* d_field_step_np1 = device_integration_point_data_step_np1_.at(block_index).back().get();
 
-  if (d_field_step_n->type() == FieldType::DeviceScalarNode) {
-    auto field_step_n = dynamic_cast<Field<FieldType::DeviceScalarNode>*>(d_field_step_n);
-    Field<FieldType::DeviceScalarNode>::View d_view_step_n = field_step_n->data();
+  if (d_field_step_n->type() == FieldType::DeviceScalarIntPt) {
+    auto field_step_n = dynamic_cast<Field<FieldType::DeviceScalarIntPt>*>(d_field_step_n);
+    Field<FieldType::DeviceScalarIntPt>::View d_view_step_n = field_step_n->data();
     auto                                     h_view_step_n = Kokkos::create_mirror_view(d_view_step_n);
     host_integration_point_data_step_n_.at(block_index)
-        .emplace_back(new Field<FieldType::HostScalarNode>(h_view_step_n));
+        .emplace_back(new Field<FieldType::HostScalarIntPt>(h_view_step_n));
 
-    auto field_step_np1 = dynamic_cast<Field<FieldType::DeviceScalarNode>*>(d_field_step_np1);
-    Field<FieldType::DeviceScalarNode>::View d_view_step_np1 = field_step_np1->data();
+    auto field_step_np1 = dynamic_cast<Field<FieldType::DeviceScalarIntPt>*>(d_field_step_np1);
+    Field<FieldType::DeviceScalarIntPt>::View d_view_step_np1 = field_step_np1->data();
     auto                                     h_view_step_np1 = Kokkos::create_mirror_view(d_view_step_np1);
     host_integration_point_data_step_np1_.at(block_index)
-        .emplace_back(new Field<FieldType::HostScalarNode>(h_view_step_np1));
+        .emplace_back(new Field<FieldType::HostScalarIntPt>(h_view_step_np1));
 
     if (set_initial_value) {
-      int num_elem = h_view_step_n.extent(0);
+      int num_elem   = h_view_step_n.extent(0);
+      int num_int_pt = h_view_step_n.extent(1);
       for (int i_elem = 0; i_elem < num_elem; ++i_elem) {
-        h_view_step_n(i_elem)   = initial_value.at(0);
-        h_view_step_np1(i_elem) = initial_value.at(0);
+        for (int i_int_pt = 0; i_int_pt < num_int_pt; ++i_int_pt) {
+          h_view_step_n(i_elem, i_int_pt, 0)   = initial_value.at(0);
+          h_view_step_np1(i_elem, i_int_pt, 0) = initial_value.at(0);
+        }
       }
       Kokkos::deep_copy(d_view_step_n, h_view_step_n);
       Kokkos::deep_copy(d_view_step_np1, h_view_step_np1);
     }
-  } else if (d_field_step_n->type() == FieldType::DeviceVectorNode) {
-    auto field_step_n = dynamic_cast<Field<FieldType::DeviceVectorNode>*>(d_field_step_n);
-    Field<FieldType::DeviceVectorNode>::View d_view_step_n = field_step_n->data();
+  } else if (d_field_step_n->type() == FieldType::DeviceVectorIntPt) {
+    auto field_step_n = dynamic_cast<Field<FieldType::DeviceVectorIntPt>*>(d_field_step_n);
+    Field<FieldType::DeviceVectorIntPt>::View d_view_step_n = field_step_n->data();
     auto                                     h_view_step_n = Kokkos::create_mirror_view(d_view_step_n);
     host_integration_point_data_step_n_.at(block_index)
-        .emplace_back(new Field<FieldType::HostVectorNode>(h_view_step_n));
+        .emplace_back(new Field<FieldType::HostVectorIntPt>(h_view_step_n));
 
-    auto field_step_np1 = dynamic_cast<Field<FieldType::DeviceVectorNode>*>(d_field_step_np1);
-    Field<FieldType::DeviceVectorNode>::View d_view_step_np1 = field_step_np1->data();
+    auto field_step_np1 = dynamic_cast<Field<FieldType::DeviceVectorIntPt>*>(d_field_step_np1);
+    Field<FieldType::DeviceVectorIntPt>::View d_view_step_np1 = field_step_np1->data();
     auto                                     h_view_step_np1 = Kokkos::create_mirror_view(d_view_step_np1);
     host_integration_point_data_step_np1_.at(block_index)
-        .emplace_back(new Field<FieldType::HostVectorNode>(h_view_step_np1));
+        .emplace_back(new Field<FieldType::HostVectorIntPt>(h_view_step_np1));
 
     if (set_initial_value) {
       int num_elem    = h_view_step_n.extent(0);
+      int num_int_pt  = h_view_step_n.extent(1);
       int num_entries = 3;
       for (int i_elem = 0; i_elem < num_elem; ++i_elem) {
-        for (int i_entry = 0; i_entry < num_entries; ++i_entry) {
-          h_view_step_n(i_elem, i_entry)   = initial_value.at(i_entry);
-          h_view_step_np1(i_elem, i_entry) = initial_value.at(i_entry);
+        for (int i_int_pt = 0; i_int_pt < num_int_pt; ++i_int_pt) {
+          for (int i_entry = 0; i_entry < num_entries; ++i_entry) {
+            h_view_step_n(i_elem, i_int_pt, i_entry)   = initial_value.at(i_entry);
+            h_view_step_np1(i_elem, i_int_pt, i_entry) = initial_value.at(i_entry);
+          }
         }
       }
       Kokkos::deep_copy(d_view_step_n, h_view_step_n);
@@ -1036,9 +1042,9 @@ ModelData::UpdateStates(const nimble::DataManager& data_manager)
     if (blocks_.at(block_id).GetMaterialPointer()->NumStateVariables() > 0) {
       if (field_ids_.state_sym_tensor >= 0) {
         auto state_sym_tensor_n =
-            GetDeviceFullTensorIntegrationPointData(block_id, field_ids_.state_sym_tensor, nimble::STEP_N);
+            GetDeviceSymTensorIntegrationPointData(block_id, field_ids_.state_sym_tensor, nimble::STEP_N);
         auto state_sym_tensor_np1 =
-            GetDeviceFullTensorIntegrationPointData(block_id, field_ids_.state_sym_tensor, nimble::STEP_NP1);
+            GetDeviceSymTensorIntegrationPointData(block_id, field_ids_.state_sym_tensor, nimble::STEP_NP1);
         Kokkos::deep_copy(state_sym_tensor_n, state_sym_tensor_np1);
       }
       //
@@ -1052,16 +1058,16 @@ ModelData::UpdateStates(const nimble::DataManager& data_manager)
       //
       if (field_ids_.state_scalar >= 0) {
         auto state_scalar_n =
-            GetDeviceFullTensorIntegrationPointData(block_id, field_ids_.state_scalar, nimble::STEP_N);
+            GetDeviceScalarIntegrationPointData(block_id, field_ids_.state_scalar, nimble::STEP_N);
         auto state_scalar_np1 =
-            GetDeviceFullTensorIntegrationPointData(block_id, field_ids_.state_scalar, nimble::STEP_NP1);
+            GetDeviceScalarIntegrationPointData(block_id, field_ids_.state_scalar, nimble::STEP_NP1);
         Kokkos::deep_copy(state_scalar_n, state_scalar_np1);
       }
       //
       if (field_ids_.state_vec3D >= 0) {
-        auto state_vector_n = GetDeviceFullTensorIntegrationPointData(block_id, field_ids_.state_vec3D, nimble::STEP_N);
+        auto state_vector_n = GetDeviceVectorIntegrationPointData(block_id, field_ids_.state_vec3D, nimble::STEP_N);
         auto state_vector_np1 =
-            GetDeviceFullTensorIntegrationPointData(block_id, field_ids_.state_vec3D, nimble::STEP_NP1);
+            GetDeviceVectorIntegrationPointData(block_id, field_ids_.state_vec3D, nimble::STEP_NP1);
         Kokkos::deep_copy(state_vector_n, state_vector_np1);
       }
     }
-- 
2.43.0


From 101992e9ff9960782fa2b599cb99f89c906eaa17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:30 +0000
Subject: [PATCH 56/60] fix: output names longer than 32 characters overflow
 the buffers of the Exodus writer

---
 src/nimble_exodus_output.cc | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/nimble_exodus_output.cc b/src/nimble_exodus_output.cc
index 9a22758..d3797cd 100644
--- a/src/nimble_exodus_output.cc
+++ b/src/nimble_exodus_output.cc
@@ -43,6 +43,7 @@
 
 #include "nimble_exodus_output.h"
 
+#include <algorithm>
 #include <chrono>
 #include <cstring>
 #include <ctime>
@@ -95,6 +96,19 @@ ExodusOutput::InitializeDatabase(
   int exodus_file_id = ex_create(filename_.c_str(), EX_CLOBBER, &CPU_word_size_, &IO_word_size_);
   if (exodus_file_id < 0) ReportExodusError(exodus_file_id, "InitializeDatabase", "ex_create");
 
+  // Names may be longer than the default length of names in an exodus database
+  size_t max_name_length = MAX_STR_LENGTH;
+  for (const auto& name : global_data_names) max_name_length = std::max(max_name_length, name.size());
+  for (const auto& name : node_data_names) max_name_length = std::max(max_name_length, name.size());
+  for (const auto& entry : elem_data_names)
+    for (const auto& name : entry.second) max_name_length = std::max(max_name_length, name.size());
+  for (const auto& entry : derived_elem_data_names)
+    for (const auto& name : entry.second) max_name_length = std::max(max_name_length, name.size());
+  if (max_name_length > MAX_STR_LENGTH) {
+    int retval_name_length = ex_set_max_name_length(exodus_file_id, static_cast<int>(max_name_length));
+    if (retval_name_length != 0) ReportExodusError(retval_name_length, "InitializeDatabase", "ex_set_max_name_length");
+  }
+
   // Write the Quality Assurance (QA) record
   int retval = ex_put_init(
       exodus_file_id, "NimbleSM", dim_, num_nodes_, num_elements_, num_global_blocks_, num_node_sets_, num_side_sets_);
@@ -232,7 +246,7 @@ ExodusOutput::InitializeDatabase(
   if (num_global_data > 0) {
     global_var_names = new char*[num_global_data];
     for (int i = 0; i < num_global_data; i++) {
-      global_var_names[i] = new char[MAX_STR_LENGTH + 1];
+      global_var_names[i] = new char[max_name_length + 1];
       strcpy(global_var_names[i], global_data_names[i].c_str());
     }
     retval = ex_put_variable_param(exodus_file_id, EX_GLOBAL, num_global_data);
@@ -246,7 +260,7 @@ ExodusOutput::InitializeDatabase(
   if (num_node_data > 0 && num_nodes_ > 0) {
     node_var_names = new char*[num_node_data];
     for (int i = 0; i < num_node_data; i++) {
-      node_var_names[i] = new char[MAX_STR_LENGTH + 1];
+      node_var_names[i] = new char[max_name_length + 1];
       strcpy(node_var_names[i], node_data_names[i].c_str());
     }
     retval = ex_put_variable_param(exodus_file_id, EX_NODAL, num_node_data);
@@ -276,7 +290,7 @@ ExodusOutput::InitializeDatabase(
   if (num_element_vars > 0) {
     element_var_names = new char*[num_element_vars];
     for (int i = 0; i < num_element_vars; i++) {
-      element_var_names[i] = new char[MAX_STR_LENGTH + 1];
+      element_var_names[i] = new char[max_name_length + 1];
       strcpy(element_var_names[i], elem_var_names[i].c_str());
     }
     retval = ex_put_variable_param(exodus_file_id, EX_ELEM_BLOCK, num_element_vars);
-- 
2.43.0


From d817d5a99323196184628ff199ceb1f2cc9832f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:27 +0000
Subject: [PATCH 57/60] fix: names of unnamed blocks and sets of netCDF-4
 meshes are read from uninitialized memory

---
 src/nimble_genesis_mesh.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/nimble_genesis_mesh.cc b/src/nimble_genesis_mesh.cc
index 70d0741..23752b6 100644
--- a/src/nimble_genesis_mesh.cc
+++ b/src/nimble_genesis_mesh.cc
@@ -125,7 +125,7 @@ GenesisMesh::ReadFile(std::string file_name)
   // obtained above The name "original_global_id_map" is used by seacas
   // utilities like decomp
   if (num_node_maps > 0) {
-    char map_name[MAX_STR_LENGTH + 1];
+    char map_name[MAX_STR_LENGTH + 1] = "";
     retval = ex_get_name(exodus_file_id, EX_NODE_MAP, 1, map_name);
     if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_name");
     if (std::string(map_name) != std::string("original_global_id_map")) {
@@ -138,7 +138,7 @@ GenesisMesh::ReadFile(std::string file_name)
     }
   }
   if (num_elem_maps > 0) {
-    char map_name[MAX_STR_LENGTH + 1];
+    char map_name[MAX_STR_LENGTH + 1] = "";
     retval = ex_get_name(exodus_file_id, EX_ELEM_MAP, 1, map_name);
     if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_name");
     if (std::string(map_name) != std::string("original_global_id_map")) {
@@ -159,7 +159,7 @@ GenesisMesh::ReadFile(std::string file_name)
   }
   for (int i = 0; i < num_node_sets; ++i) {
     int  id = node_set_ids_[i];
-    char name[MAX_STR_LENGTH + 1];
+    char name[MAX_STR_LENGTH + 1] = "";
     retval = ex_get_name(exodus_file_id, EX_NODE_SET, id, name);
     if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_name");
     // If the node set name came back blank, create one that looks like
@@ -205,7 +205,7 @@ GenesisMesh::ReadFile(std::string file_name)
   }
   for (int i = 0; i < num_side_sets; ++i) {
     int  id = side_set_ids_[i];
-    char name[MAX_STR_LENGTH + 1];
+    char name[MAX_STR_LENGTH + 1] = "";
     retval = ex_get_name(exodus_file_id, EX_SIDE_SET, id, name);
     if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_name");
     // If the side set name came back blank, create one that looks like
@@ -262,7 +262,7 @@ GenesisMesh::ReadFile(std::string file_name)
     all_block_ids_.push_back(block_id);
 
     // Get the block name, if there is one
-    char exodus_block_name[MAX_STR_LENGTH + 1];
+    char exodus_block_name[MAX_STR_LENGTH + 1] = "";
     retval = ex_get_name(exodus_file_id, EX_ELEM_BLOCK, block_id, exodus_block_name);
     if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_name");
     // If the block name came back blank, create one that looks like "block_1",
-- 
2.43.0


From 14ee98c3c94394c31dd83264e4ea2521b9ceb190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:35 +0000
Subject: [PATCH 58/60] fix: names longer than 32 characters in a mesh are cut
 off

---
 src/nimble_exodus_output.cc |  3 ++-
 src/nimble_genesis_mesh.cc  | 35 ++++++++++++++++++++---------------
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/nimble_exodus_output.cc b/src/nimble_exodus_output.cc
index d3797cd..ce6bb96 100644
--- a/src/nimble_exodus_output.cc
+++ b/src/nimble_exodus_output.cc
@@ -98,6 +98,7 @@ ExodusOutput::InitializeDatabase(
 
   // Names may be longer than the default length of names in an exodus database
   size_t max_name_length = MAX_STR_LENGTH;
+  for (int id : all_block_ids_) max_name_length = std::max(max_name_length, genesis_mesh.GetBlockName(id).size());
   for (const auto& name : global_data_names) max_name_length = std::max(max_name_length, name.size());
   for (const auto& name : node_data_names) max_name_length = std::max(max_name_length, name.size());
   for (const auto& entry : elem_data_names)
@@ -153,7 +154,7 @@ ExodusOutput::InitializeDatabase(
   // Write the block names
   char** block_names = new char*[num_global_blocks_];
   for (int i = 0; i < num_global_blocks_; ++i) {
-    block_names[i]               = new char[MAX_STR_LENGTH + 1];
+    block_names[i]               = new char[max_name_length + 1];
     const int         id         = all_block_ids_[i];
     const std::string block_name = genesis_mesh.GetBlockName(id);
     strcpy(block_names[i], block_name.c_str());
diff --git a/src/nimble_genesis_mesh.cc b/src/nimble_genesis_mesh.cc
index 23752b6..8a40d4b 100644
--- a/src/nimble_genesis_mesh.cc
+++ b/src/nimble_genesis_mesh.cc
@@ -80,6 +80,11 @@ GenesisMesh::ReadFile(std::string file_name)
     ReportExodusError(exodus_file_id, "GenesisMesh::ReadFile", "ex_open");
   }
 
+  // Names may be longer than the default length of names in an exodus database
+  int max_name_length =
+      std::max<int>(MAX_STR_LENGTH, ex_inquire_int(exodus_file_id, EX_INQ_DB_MAX_ALLOWED_NAME_LENGTH));
+  ex_set_max_name_length(exodus_file_id, max_name_length);
+
   // Read the initialization parameters
   int  num_nodes, num_elem, num_blocks, num_node_sets, num_side_sets;
   char title[MAX_LINE_LENGTH + 1];
@@ -125,10 +130,10 @@ GenesisMesh::ReadFile(std::string file_name)
   // obtained above The name "original_global_id_map" is used by seacas
   // utilities like decomp
   if (num_node_maps > 0) {
-    char map_name[MAX_STR_LENGTH + 1] = "";
-    retval = ex_get_name(exodus_file_id, EX_NODE_MAP, 1, map_name);
+    std::vector<char> map_name(max_name_length + 1);
+    retval = ex_get_name(exodus_file_id, EX_NODE_MAP, 1, map_name.data());
     if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_name");
-    if (std::string(map_name) != std::string("original_global_id_map")) {
+    if (std::string(map_name.data()) != std::string("original_global_id_map")) {
       NIMBLE_ABORT("GenesisMesh::ReadFile(), unsupported auxiliary node map!");
     }
     retval = ex_get_num_map(exodus_file_id, EX_NODE_MAP, 1, node_global_id_.data());
@@ -138,10 +143,10 @@ GenesisMesh::ReadFile(std::string file_name)
     }
   }
   if (num_elem_maps > 0) {
-    char map_name[MAX_STR_LENGTH + 1] = "";
-    retval = ex_get_name(exodus_file_id, EX_ELEM_MAP, 1, map_name);
+    std::vector<char> map_name(max_name_length + 1);
+    retval = ex_get_name(exodus_file_id, EX_ELEM_MAP, 1, map_name.data());
     if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_name");
-    if (std::string(map_name) != std::string("original_global_id_map")) {
+    if (std::string(map_name.data()) != std::string("original_global_id_map")) {
       NIMBLE_ABORT("GenesisMesh::ReadFile(), unsupported auxiliary element map!");
     }
     retval = ex_get_num_map(exodus_file_id, EX_ELEM_MAP, 1, elem_global_id_.data());
@@ -159,12 +164,12 @@ GenesisMesh::ReadFile(std::string file_name)
   }
   for (int i = 0; i < num_node_sets; ++i) {
     int  id = node_set_ids_[i];
-    char name[MAX_STR_LENGTH + 1] = "";
-    retval = ex_get_name(exodus_file_id, EX_NODE_SET, id, name);
+    std::vector<char> name(max_name_length + 1);
+    retval = ex_get_name(exodus_file_id, EX_NODE_SET, id, name.data());
     if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_name");
     // If the node set name came back blank, create one that looks like
     // "nodelist_1", "nodelist_2", etc.
-    std::string node_set_name(name);
+    std::string node_set_name(name.data());
     if (node_set_name.size() == 0) {
       std::stringstream ss;
       ss << "nodelist_" << id;
@@ -205,12 +210,12 @@ GenesisMesh::ReadFile(std::string file_name)
   }
   for (int i = 0; i < num_side_sets; ++i) {
     int  id = side_set_ids_[i];
-    char name[MAX_STR_LENGTH + 1] = "";
-    retval = ex_get_name(exodus_file_id, EX_SIDE_SET, id, name);
+    std::vector<char> name(max_name_length + 1);
+    retval = ex_get_name(exodus_file_id, EX_SIDE_SET, id, name.data());
     if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_name");
     // If the side set name came back blank, create one that looks like
     // "sideset_1", "sideset_2", etc.
-    std::string side_set_name(name);
+    std::string side_set_name(name.data());
     if (side_set_name.size() == 0) {
       std::stringstream ss;
       ss << "sideset_" << id;
@@ -262,12 +267,12 @@ GenesisMesh::ReadFile(std::string file_name)
     all_block_ids_.push_back(block_id);
 
     // Get the block name, if there is one
-    char exodus_block_name[MAX_STR_LENGTH + 1] = "";
-    retval = ex_get_name(exodus_file_id, EX_ELEM_BLOCK, block_id, exodus_block_name);
+    std::vector<char> exodus_block_name(max_name_length + 1);
+    retval = ex_get_name(exodus_file_id, EX_ELEM_BLOCK, block_id, exodus_block_name.data());
     if (retval != 0) ReportExodusError(retval, "GenesisMesh::ReadFile()", "ex_get_name");
     // If the block name came back blank, create one that looks like "block_1",
     // "block_2", etc.
-    std::string block_name(exodus_block_name);
+    std::string block_name(exodus_block_name.data());
     if (block_name.size() == 0) {
       std::stringstream ss;
       ss << "block_" << block_id;
-- 
2.43.0


From 74cf768a7d969b0f9204fc5bd7b10b31e9052701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:15 +0000
Subject: [PATCH 59/60] fix: overlapping prescribed velocities of quasi-static
 runs add up instead of the last one governing

---
 src/nimble_boundary_condition_manager.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/nimble_boundary_condition_manager.h b/src/nimble_boundary_condition_manager.h
index af1bdf0..3bb5804 100644
--- a/src/nimble_boundary_condition_manager.h
+++ b/src/nimble_boundary_condition_manager.h
@@ -51,6 +51,7 @@
 #include "darma.h"
 #else
 #include <map>
+#include <utility>
 #include <vector>
 #endif
 
@@ -146,12 +147,19 @@ class BoundaryConditionManager
   {
     double delta_t = time_current - time_previous;
 
+    // Displacements at the start of the step; several conditions may govern the same node
+    std::map<std::pair<int, int>, double> start;
+
     for (auto& bc : boundary_conditions_) {
       int                     node_set_id    = bc.node_set_id_;
       int                     coordinate     = bc.coordinate_;
       bool                    has_expression = bc.has_expression_;
       std::vector<int> const& node_set       = node_sets_[node_set_id];
 
+      if (time_integration_scheme_ == QUASISTATIC) {
+        for (int n : node_set) { start.emplace(std::make_pair(n, coordinate), displacement(n, coordinate)); }
+      }
+
       if (bc.bc_type_ == BoundaryCondition::PRESCRIBED_VELOCITY) {
         if (!has_expression) {
           double velocity_magnitude = bc.magnitude_;
@@ -161,7 +169,7 @@ class BoundaryConditionManager
               offnom_velocities[nuq](n, coordinate) = velocity_magnitude;
             }
             if (time_integration_scheme_ == QUASISTATIC) {
-              displacement(n, coordinate) += velocity_magnitude * delta_t;
+              displacement(n, coordinate) = start.at({n, coordinate}) + velocity_magnitude * delta_t;
             }
           }
         } else {
@@ -177,7 +185,7 @@ class BoundaryConditionManager
               offnom_velocities[nuq](n, coordinate) = velocity_magnitude;
             }
             if (time_integration_scheme_ == QUASISTATIC) {
-              displacement(n, coordinate) += velocity_magnitude * delta_t;
+              displacement(n, coordinate) = start.at({n, coordinate}) + velocity_magnitude * delta_t;
             }
           }
         }
-- 
2.43.0


From 4dde7995abc31785f58118efe36232d0e6c84f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:18 +0000
Subject: [PATCH 60/60] fix: a tab may follow the material name of the uq
 parameters

---
 src/nimble_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nimble_parser.cc b/src/nimble_parser.cc
index c148404..a1a3805 100644
--- a/src/nimble_parser.cc
+++ b/src/nimble_parser.cc
@@ -342,7 +342,7 @@ Parser::ParseKeyValue(const std::string& key, const std::string& value)
   }
 #ifdef NIMBLE_HAVE_UQ
   else if (key == "uq parameters") {
-    size_t      space_pos                = value.find(" ");
+    size_t      space_pos                = value.find_first_of(" \t");
     std::string material_key             = value.substr(0, space_pos);
     std::string uq_params                = value.substr(space_pos + 1, value.size());
     uq_parameters_strings_.emplace_back(material_key, uq_params);
-- 
2.43.0

