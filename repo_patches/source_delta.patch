From a84cc7f5fc5f9a9bac48dddbb2c8bffb8c10e2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:57 +0000
Subject: [PATCH 01/49] fix: kk does not add a status line to the table it
 writes to standard output

---
 tools/kk/kk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/kk/kk.hpp b/tools/kk/kk.hpp
index fb1fcfa..63492a4 100644
--- a/tools/kk/kk.hpp
+++ b/tools/kk/kk.hpp
@@ -271,7 +271,7 @@ class KK {
      init(im);
      const auto re = calc(Xpts);
      write(re, mode == MODE::FILES ? Fout : std::cout);
-     std::cout << "KK done!" << std::endl;
+     if (mode != MODE::STD) std::cout << "KK done!" << std::endl;
    }
    
    // Modern interface when kk is used as a library
-- 
2.43.0


From fc2c3d597f5faa54e6296e79731a46b37c614d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:57 +0000
Subject: [PATCH 02/49] fix: kk skips comment lines anywhere in its input
 instead of silently dropping the rows after them

---
 tools/kk/kk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/kk/kk.hpp b/tools/kk/kk.hpp
index 63492a4..7f1258f 100644
--- a/tools/kk/kk.hpp
+++ b/tools/kk/kk.hpp
@@ -65,7 +65,7 @@ constexpr auto OUTPUT_PRECISION = 16;
 // Read data from stream F.
 inline auto read(std::istream &F) {
   XYFUNC v;
-  while (F) {
+  while (F >> std::ws) {
     if (F.peek() == '#') { // skip comment lines
       std::string line;
       std::getline(F, line);
-- 
2.43.0


From ee95fc52228245a74f73e92ef2fe8dc0598dc618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:43 +0000
Subject: [PATCH 03/49] fix: specmoments rejects truncated spectra and Nz<1
 instead of reading past its buffer

---
 tools/specmoments/specmoments.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tools/specmoments/specmoments.cc b/tools/specmoments/specmoments.cc
index 40fc85c..ebe730e 100644
--- a/tools/specmoments/specmoments.cc
+++ b/tools/specmoments/specmoments.cc
@@ -104,7 +104,10 @@ void cmd_line(int argc, char *argv[]) {
   }
   name = string(argv[optind]);
   Nz   = atoi(argv[optind + 1]);
-  assert(Nz >= 1);
+  if (!(Nz >= 1)) {
+    cerr << "Nz must be greater than or equal to 1." << endl;
+    exit(1);
+  }
   if (verbose) cout << "Processing: " << name << " Nz=" << Nz << endl;
 }
 
@@ -148,7 +151,10 @@ void load(int i) {
   f.seekg(0, ios::end);
   const ios::pos_type end_pos = f.tellg();
   const long len              = end_pos - begin_pos;
-  assert(len % (rows * sizeof(double)) == 0);
+  if (len % (rows * sizeof(double)) != 0) {
+    cerr << "Input binary file has incomplete row data." << endl;
+    exit(1);
+  }
   const int nr = len / (rows * sizeof(double)); // number of lines
   if (verbose) cout << "len=" << len << " nr=" << nr << " data points" << endl;
   // Allocate the read buffer. The data will be kept in memory for the
-- 
2.43.0


From 4120c467c55fcc48166065322c4de2924319e61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:05 +0000
Subject: [PATCH 04/49] fix: intavg and tdavg list a mesh point at zero once

---
 tools/intavg/intavg.cc | 2 +-
 tools/tdavg/tdavg.cc   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/intavg/intavg.cc b/tools/intavg/intavg.cc
index b1db08a..2e67b8e 100644
--- a/tools/intavg/intavg.cc
+++ b/tools/intavg/intavg.cc
@@ -209,7 +209,7 @@ double LinInt::operator()(double x) {
 
 const double EPS = 1e-6;
 
-inline bool eq_approx(double a, double b) { return std::abs((a - b) / a) < EPS; }
+inline bool eq_approx(double a, double b) { return a == b || std::abs((a - b) / a) < EPS; }
 
 dvec merge_meshes() {
   dvec mesh_;
diff --git a/tools/tdavg/tdavg.cc b/tools/tdavg/tdavg.cc
index c254b09..b25e12b 100644
--- a/tools/tdavg/tdavg.cc
+++ b/tools/tdavg/tdavg.cc
@@ -289,7 +289,7 @@ double LinInt::operator()(double x) {
 
 const double EPS = 1e-6;
 
-inline bool eq_approx(double a, double b) { return std::abs((a - b) / a) < EPS; }
+inline bool eq_approx(double a, double b) { return a == b || std::abs((a - b) / a) < EPS; }
 
 dvec merge_meshes() {
   dvec mesh_;
-- 
2.43.0


From 3d4fbc0623556fc294baf27cb6d9c1ba52154ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:05 +0000
Subject: [PATCH 05/49] fix: intavg skips comments anywhere in its input and
 rejects Nz<1

---
 tools/intavg/intavg.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tools/intavg/intavg.cc b/tools/intavg/intavg.cc
index 2e67b8e..add6632 100644
--- a/tools/intavg/intavg.cc
+++ b/tools/intavg/intavg.cc
@@ -64,7 +64,10 @@ void cmd_line(int argc, char *argv[]) {
   }
   name = string(argv[optind]);   // Name of spectral density files
   Nz   = atoi(argv[optind + 1]); // Number of z-values
-  assert(Nz >= 1);
+  if (!(Nz >= 1)) {
+    cerr << "Nz must be greater than or equal to 1." << endl;
+    exit(1);
+  }
 }
 
 string tostring(int i) {
@@ -87,7 +90,7 @@ Vec load(int i) {
 
   Vec data;
 
-  while (f) {
+  while (f >> ws) {
     if (f.peek() == '#') { // skip comment lines
       string line;
       getline(f, line);
-- 
2.43.0


From a6aacf43dba796a7f5627b7690f57873da264253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:51 +0000
Subject: [PATCH 06/49] fix: integ skips comment lines anywhere in its input
 instead of silently dropping the rows after them

---
 tools/integ/integ.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/integ/integ.cc b/tools/integ/integ.cc
index 6df8912..e816623 100644
--- a/tools/integ/integ.cc
+++ b/tools/integ/integ.cc
@@ -114,7 +114,7 @@ void cmd_line(int argc, char *argv[]) {
 
 // Read data from stream F.
 void readtable(istream &F, XYFUNC &v) {
-  while (F) {
+  while (F >> ws) {
     if (F.peek() == '#') { // skip comment lines
       string line;
       getline(F, line);
-- 
2.43.0


From 889d7819d360d70a835addac723b56c6aaaada96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:29 +0000
Subject: [PATCH 07/49] fix: nrgchain rejects loaded coefficient tables shorter
 than mMAX instead of reading past their end

---
 tools/nrgchain/nrgchain.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/nrgchain/nrgchain.cc b/tools/nrgchain/nrgchain.cc
index 9cdddbd..f611f44 100644
--- a/tools/nrgchain/nrgchain.cc
+++ b/tools/nrgchain/nrgchain.cc
@@ -321,6 +321,8 @@ void load_tables() {
   load("de_neg.dat", de_neg);
   load("du_pos.dat", du_pos);
   load("du_neg.dat", du_neg);
+  for (const auto *table : {&de_pos, &de_neg, &du_pos, &du_neg})
+    if (table->size() <= mMAX) throw std::runtime_error("Coefficient tables are too short for mMAX=" + std::to_string(mMAX) + ".");
 }
 
 class my_mpf {
-- 
2.43.0


From 3433b73894a79fb8644c9ab4f2d9268828edd332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 08/49] fix: nrgchain rejects chains longer than the
 discretized bath supports

---
 tools/nrgchain/nrgchain.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/nrgchain/nrgchain.cc b/tools/nrgchain/nrgchain.cc
index f611f44..ac47218 100644
--- a/tools/nrgchain/nrgchain.cc
+++ b/tools/nrgchain/nrgchain.cc
@@ -374,6 +374,8 @@ void fix_norm(vmpf &up, vmpf &um, unsigned int mMAX_) {
 // OUTPUT: written to files "xi.dat" and "zeta.dat"
 
 void tridiag() {
+  if (Nmax > 2 * mMAX) throw std::invalid_argument("Nmax too large for the number of discretization intervals (mMAX).");
+
   ofstream XI, ZETA;
   safe_open(XI, "xi.dat");     // hopping constants
   safe_open(ZETA, "zeta.dat"); // on-site energies
@@ -443,8 +445,8 @@ void tridiag() {
     mpf_mul(tempsq, mpzeta, mpzeta);
     mpf_sub(xi2, xi2, tempsq);
 
-    if (!mpf_cmp_d(xi2, 0.0)) {
-      cerr << "xi2 negative, aborting." << endl;
+    if (mpf_cmp_d(xi2, 0.0) <= 0) {
+      cerr << "xi2 not positive, aborting." << endl;
       exit(1);
     }
 
-- 
2.43.0


From 0e3d0d50cf743072c50a758fbab25e570cea49e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:21 +0000
Subject: [PATCH 09/49] fix: matrix returns to the including file at the end of
 an included one instead of closing it

---
 tools/matrix/parser.cc | 6 ++++++
 tools/matrix/parser.yy | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/tools/matrix/parser.cc b/tools/matrix/parser.cc
index 610dcc0..a60dced 100644
--- a/tools/matrix/parser.cc
+++ b/tools/matrix/parser.cc
@@ -1940,10 +1940,16 @@ int remaining;
 int current = 0;
 FILE *file;
 extern FILE *yyin;
+extern int include_depth;
 
 extern "C" {
 int yywrap(void)
 {
+    // End of an included file: the <<EOF>> rule returns to the including one.
+    if (include_depth > 0) {
+      return 1;
+    }
+
     if (current != 0 && file) {
       fclose(file);
       file = nullptr;
diff --git a/tools/matrix/parser.yy b/tools/matrix/parser.yy
index b067ba3..43dce40 100644
--- a/tools/matrix/parser.yy
+++ b/tools/matrix/parser.yy
@@ -339,10 +339,16 @@ int remaining;
 int current = 0;
 FILE *file;
 extern FILE *yyin;
+extern int include_depth;
 
 extern "C" {
 int yywrap(void)
 {
+    // End of an included file: the <<EOF>> rule returns to the including one.
+    if (include_depth > 0) {
+      return 1;
+    }
+
     if (current != 0 && file) {
       fclose(file);
       file = nullptr;
-- 
2.43.0


From d1fa4d74f74e779edba5dcce69d0f89d19734b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:41 +0000
Subject: [PATCH 10/49] fix: matrix reads integer literals beyond the int range
 as numbers

---
 tools/matrix/matrix.cc | 4 ++++
 tools/matrix/matrix.ll | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/tools/matrix/matrix.cc b/tools/matrix/matrix.cc
index 3d25b41..007afcc 100644
--- a/tools/matrix/matrix.cc
+++ b/tools/matrix/matrix.cc
@@ -535,6 +535,7 @@ char *yytext;
 #include <cstdlib>
 #include "parser.hh"
 #include "matrix.h"
+#include <climits>
 #include <cmath>
 
 using namespace std;
@@ -912,6 +913,9 @@ case 14:
 YY_RULE_SETUP
 #line 52 "matrix.ll"
 { 
+         // Numbers which do not fit an int are not valid indexes, but they are valid numbers.
+         yylval.dval = atof(yytext);
+         if (yylval.dval > INT_MAX) { return NUMBER; }
          yylval.ival = atoi(yytext);
 	 return INTEGER;
        }
diff --git a/tools/matrix/matrix.ll b/tools/matrix/matrix.ll
index 230948c..577efe6 100644
--- a/tools/matrix/matrix.ll
+++ b/tools/matrix/matrix.ll
@@ -3,6 +3,7 @@
 #include <cstdlib>
 #include "parser.hh"
 #include "matrix.h"
+#include <climits>
 #include <cmath>
 
 using namespace std;
@@ -54,6 +55,9 @@ parse      { BEGIN(incl); }
        }
 
 [0-9]+ { 
+         // Numbers which do not fit an int are not valid indexes, but they are valid numbers.
+         yylval.dval = atof(yytext);
+         if (yylval.dval > INT_MAX) { return NUMBER; }
          yylval.ival = atoi(yytext);
 	 return INTEGER;
        }
-- 
2.43.0


From 5181d2f50cb797230b95d975d4c05d04d96c98c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:00 +0000
Subject: [PATCH 11/49] fix: matrix rejects out-of-range coefficient references
 instead of reading past the tables

---
 tools/matrix/parser.cc | 31 ++++++++++++++++++++-----------
 tools/matrix/parser.yy | 31 ++++++++++++++++++++-----------
 2 files changed, 40 insertions(+), 22 deletions(-)

diff --git a/tools/matrix/parser.cc b/tools/matrix/parser.cc
index a60dced..d401b03 100644
--- a/tools/matrix/parser.cc
+++ b/tools/matrix/parser.cc
@@ -2096,39 +2096,48 @@ struct vec * duplicate_vector(struct vec *dvec)
   return head;
 }
 
+// Stop if a coefficient which is not available is requested.
+void require(bool available)
+{
+  if (!available) {
+    cerr << "coefficient index out of range" << endl;
+    exit(1);
+  }
+}
+
 double gammapolch(int ch)
 {
   // In initial.m, gammaPolCh[] is defined as sqrt(theta/pi * Gamma) !!
-  assert(1 <= ch && ch <= nrchannels);
+  require(1 <= ch && ch <= nrchannels);
   return sqrt(theta[ch-1]/M_PI);
 }
 
 // channel nr. has offset 1, i is 0 based
 double coefzeta(int ch, int i)
 {
-  assert(1 <= ch && ch <= nrchannels);
-  assert(i < zeta[ch-1].size());
+  require(1 <= ch && ch <= nrchannels);
+  require(0 <= i && i < zeta[ch-1].size());
   return zeta[ch-1][i];
 }
 
 double coefxi(int ch, int i)
 {
-  assert(1 <= ch && ch <= nrchannels);
-  assert(i < xi[ch-1].size());
+  require(1 <= ch && ch <= nrchannels);
+  require(0 <= i && i < xi[ch-1].size());
   return xi[ch-1][i];
 }
 
 double coefdelta(int ch, int i)
 {
-  assert(1 <= ch && ch <= nrchannels);
-  assert(i < delta[ch-1].size());
+  require(1 <= ch && ch <= nrchannels);
+  require(0 <= i && i < delta[ch-1].size());
   return delta[ch-1][i];
 }
 
 double coefkappa(int ch, int i)
 {
-  assert(1 <= ch && ch <= nrchannels);
-  assert(i < kappa[ch-1].size());
+  require(1 <= ch && ch <= nrchannels);
+  require(0 <= i && i < kappa[ch-1].size());
   return kappa[ch-1][i];
 }
 
@@ -2137,8 +2146,8 @@ double coefkappa(int ch, int i)
 double coefV(int i, int j)
 {
   const int ch = 1;
-  assert(1 <= i && i <= V[ch-1].size());
-  assert(1 <= j && j <= V[ch-1][i-1].size());
+  require(1 <= i && i <= V[ch-1].size());
+  require(1 <= j && j <= V[ch-1][i-1].size());
   return V[ch-1][i-1][j-1];
 }
 
diff --git a/tools/matrix/parser.yy b/tools/matrix/parser.yy
index 43dce40..9e8e3dd 100644
--- a/tools/matrix/parser.yy
+++ b/tools/matrix/parser.yy
@@ -495,39 +495,48 @@ struct vec * duplicate_vector(struct vec *dvec)
   return head;
 }
 
+// Stop if a coefficient which is not available is requested.
+void require(bool available)
+{
+  if (!available) {
+    cerr << "coefficient index out of range" << endl;
+    exit(1);
+  }
+}
+
 double gammapolch(int ch)
 {
   // In initial.m, gammaPolCh[] is defined as sqrt(theta/pi * Gamma) !!
-  assert(1 <= ch && ch <= nrchannels);
+  require(1 <= ch && ch <= nrchannels);
   return sqrt(theta[ch-1]/M_PI);
 }
 
 // channel nr. has offset 1, i is 0 based
 double coefzeta(int ch, int i)
 {
-  assert(1 <= ch && ch <= nrchannels);
-  assert(i < zeta[ch-1].size());
+  require(1 <= ch && ch <= nrchannels);
+  require(0 <= i && i < zeta[ch-1].size());
   return zeta[ch-1][i];
 }
 
 double coefxi(int ch, int i)
 {
-  assert(1 <= ch && ch <= nrchannels);
-  assert(i < xi[ch-1].size());
+  require(1 <= ch && ch <= nrchannels);
+  require(0 <= i && i < xi[ch-1].size());
   return xi[ch-1][i];
 }
 
 double coefdelta(int ch, int i)
 {
-  assert(1 <= ch && ch <= nrchannels);
-  assert(i < delta[ch-1].size());
+  require(1 <= ch && ch <= nrchannels);
+  require(0 <= i && i < delta[ch-1].size());
   return delta[ch-1][i];
 }
 
 double coefkappa(int ch, int i)
 {
-  assert(1 <= ch && ch <= nrchannels);
-  assert(i < kappa[ch-1].size());
+  require(1 <= ch && ch <= nrchannels);
+  require(0 <= i && i < kappa[ch-1].size());
   return kappa[ch-1][i];
 }
 
@@ -536,8 +545,8 @@ double coefkappa(int ch, int i)
 double coefV(int i, int j)
 {
   const int ch = 1;
-  assert(1 <= i && i <= V[ch-1].size());
-  assert(1 <= j && j <= V[ch-1][i-1].size());
+  require(1 <= i && i <= V[ch-1].size());
+  require(1 <= j && j <= V[ch-1][i-1].size());
   return V[ch-1][i-1][j-1];
 }
 
-- 
2.43.0


From 01acc55189a919804ed99aeec12df5d699c7aa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:07 +0000
Subject: [PATCH 12/49] fix: matrix stops on a division by zero instead of
 using an undefined value

---
 tools/matrix/parser.cc | 5 +++--
 tools/matrix/parser.yy | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/tools/matrix/parser.cc b/tools/matrix/parser.cc
index d401b03..1acfa7b 100644
--- a/tools/matrix/parser.cc
+++ b/tools/matrix/parser.cc
@@ -1383,9 +1383,10 @@ yyreduce:
 
   case 13:
 #line 102 "parser.yy" /* yacc.c:1646  */
-    {	if((yyvsp[0].dval) == 0.0)
+    {	if((yyvsp[0].dval) == 0.0) {
 						yyerror("divide by zero");
-					else
+						exit(1);
+					} else
 						(yyval.dval) = (yyvsp[-2].dval) / (yyvsp[0].dval);
 				}
 #line 1389 "parser.cc" /* yacc.c:1646  */
diff --git a/tools/matrix/parser.yy b/tools/matrix/parser.yy
index 9e8e3dd..538798b 100644
--- a/tools/matrix/parser.yy
+++ b/tools/matrix/parser.yy
@@ -102,9 +102,10 @@ expression:	expression '+' expression { $$ = $1 + $3; }
 	|	expression '-' expression { $$ = $1 - $3; }
 	|	expression '*' expression { $$ = $1 * $3; }
 	|	expression '/' expression
-				{	if($3 == 0.0)
+				{	if($3 == 0.0) {
 						yyerror("divide by zero");
-					else
+						exit(1);
+					} else
 						$$ = $1 / $3;
 				}
 	|	'-' expression %prec UMINUS	{ $$ = -$2; }
-- 
2.43.0


From 52b2e839fcfbf92e401097020faf95ebf61a35e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:42 +0000
Subject: [PATCH 13/49] fix: matrix does not discard a bracketed function
 argument as a section header

---
 tools/matrix/matrix.cc | 12 +++++++++++-
 tools/matrix/matrix.ll | 12 +++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/tools/matrix/matrix.cc b/tools/matrix/matrix.cc
index 007afcc..8ca0ee6 100644
--- a/tools/matrix/matrix.cc
+++ b/tools/matrix/matrix.cc
@@ -553,6 +553,13 @@ void parse_file(const char *);
 int count_braces = 0;
 int include_depth = 0;
 
+// Section headers stand at the beginning of a line; elsewhere [x] is the argument list of a function.
+static bool line_start = true;
+static bool next_line_start = true;
+#define YY_USER_ACTION \
+  line_start = next_line_start; \
+  if (yytext[0] != ' ' && yytext[0] != '\t') next_line_start = (yytext[0] == '\n');
+
 
 
 #line 554 "matrix.cc"
@@ -944,7 +951,9 @@ YY_RULE_SETUP
 case 18:
 YY_RULE_SETUP
 #line 70 "matrix.ll"
-;          /* ignore sections (param) */
+{         /* ignore sections (param) */
+         if (!line_start || count_braces > 0) { yyless(1); return yytext[0]; }
+       }
 	YY_BREAK
 case 19:
 YY_RULE_SETUP
@@ -2056,5 +2065,6 @@ void parse_file(const char *filename)
      exit(1);
    }
    include_depth++;
+   next_line_start = true;
    yypush_buffer_state(buffer);
 }
diff --git a/tools/matrix/matrix.ll b/tools/matrix/matrix.ll
index 577efe6..e70aee8 100644
--- a/tools/matrix/matrix.ll
+++ b/tools/matrix/matrix.ll
@@ -21,6 +21,13 @@ void parse_file(const char *);
 int count_braces = 0;
 int include_depth = 0;
 
+// Section headers stand at the beginning of a line; elsewhere [x] is the argument list of a function.
+static bool line_start = true;
+static bool next_line_start = true;
+#define YY_USER_ACTION \
+  line_start = next_line_start; \
+  if (yytext[0] != ' ' && yytext[0] != '\t') next_line_start = (yytext[0] == '\n');
+
 %}
 
 %x incl
@@ -75,7 +82,9 @@ parse      { BEGIN(incl); }
 
 [ \t]	;		 /* ignore white space */
 
-\[{ALPHANAME}\] ;          /* ignore sections (param) */
+\[{ALPHANAME}\] {         /* ignore sections (param) */
+         if (!line_start || count_braces > 0) { yyless(1); return yytext[0]; }
+       }
 
 {ALPHANAME}={TEXT} { 
                      if (veryverbose) {
@@ -150,5 +159,6 @@ void parse_file(const char *filename)
      exit(1);
    }
    include_depth++;
+   next_line_start = true;
    yypush_buffer_state(buffer);
 }
-- 
2.43.0


From a134897cf66804be394babc2cbe569eceb2fccaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:53 +0000
Subject: [PATCH 14/49] fix: matrix reports malformed input in its exit status

---
 tools/matrix/parser.cc | 8 +++++++-
 tools/matrix/parser.yy | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/tools/matrix/parser.cc b/tools/matrix/parser.cc
index 1acfa7b..0e20ef0 100644
--- a/tools/matrix/parser.cc
+++ b/tools/matrix/parser.cc
@@ -1942,6 +1942,7 @@ int current = 0;
 FILE *file;
 extern FILE *yyin;
 extern int include_depth;
+extern int count_braces;
 
 extern "C" {
 int yywrap(void)
@@ -2009,7 +2010,12 @@ int main(int argc, char *argv[])
    yywrap();
  }
 
- yyparse();
+ const int status = yyparse();
+
+ // A missing newline at the end of the last line is not an error.
+ if (status != 0 && !(yychar == 0 && count_braces == 0)) {
+   return 1;
+ }
 
   if (verbose) {
   cerr << "DONE!" << endl;
diff --git a/tools/matrix/parser.yy b/tools/matrix/parser.yy
index 538798b..a5759d0 100644
--- a/tools/matrix/parser.yy
+++ b/tools/matrix/parser.yy
@@ -341,6 +341,7 @@ int current = 0;
 FILE *file;
 extern FILE *yyin;
 extern int include_depth;
+extern int count_braces;
 
 extern "C" {
 int yywrap(void)
@@ -408,7 +409,12 @@ int main(int argc, char *argv[])
    yywrap();
  }
 
- yyparse();
+ const int status = yyparse();
+
+ // A missing newline at the end of the last line is not an error.
+ if (status != 0 && !(yychar == 0 && count_braces == 0)) {
+   return 1;
+ }
 
  if (verbose) {
   cerr << "DONE!" << endl;
-- 
2.43.0


From d646531954b52bf1452f010d69ee200e6a85c656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:10 +0000
Subject: [PATCH 15/49] fix: SYMTYPE=QJ looked up the site subspaces with
 1-based indices in a 0-based vector

---
 c++/symmetry/sym-QJ-impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/symmetry/sym-QJ-impl.hpp b/c++/symmetry/sym-QJ-impl.hpp
index e1ee0f7..85463e1 100644
--- a/c++/symmetry/sym-QJ-impl.hpp
+++ b/c++/symmetry/sym-QJ-impl.hpp
@@ -87,8 +87,8 @@ class SymmetryQJ : public Symmetry<SC> {
                             const InvarVec &In, const Opch<SC> &opch) const
    {
      const Invar Iop     = ch == 0 ? Invar(1, 2) : Invar(1, 4);
-     const Invar I1      = In[i];
-     const Invar I2      = In[j];
+     const Invar I1      = In[i-1]; // i,j are 1-based (Mathematica interface), In is 0-based
+     const Invar I2      = In[j-1];
      const bool triangle = triangle_inequality(I1, I2, Iop); // I1 = I2+Iop
      if (triangle) { offdiag_function(step, i, j, ch, fnr, factor, h, qq, In, opch); }
    }
-- 
2.43.0


From c8ee812574ad43c6ec328282ec72412cb75c6110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:06 +0000
Subject: [PATCH 16/49] fix: SPSU2T aborted on pairs of subspaces with
 vanishing or undefined coefficient

---
 c++/symmetry/sym-SPSU2T-impl.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c++/symmetry/sym-SPSU2T-impl.hpp b/c++/symmetry/sym-SPSU2T-impl.hpp
index 2afe6a1..e45b807 100644
--- a/c++/symmetry/sym-SPSU2T-impl.hpp
+++ b/c++/symmetry/sym-SPSU2T-impl.hpp
@@ -108,7 +108,9 @@ bool spsu2t_exception(const unsigned int i, const unsigned int j, const Invar &I
       } else {                                                                                                                                       \
         factor = factor0;                                                                                                                            \
       }                                                                                                                                              \
-      this->offdiag_function_impl(step, i, j, ch, fnr, factor, h, qq, In, opch);                                                                           \
+      /* No contribution for zero factors and for undefined ones (as in QST): f does not couple, e.g., T=0 with T=0. */                                \
+      if (std::abs(factor) > 0.0)                                                                                                                      \
+        this->offdiag_function_impl(step, i, j, ch, fnr, factor, h, qq, In, opch);                                                                     \
     }                                                                                                                                                \
   };
 
-- 
2.43.0


From b2ffe885fcd12ae8e4557f3bac384c9911a381c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 17/49] fix: polarized NONE, P and PP runs counted the zeta
 reference energy twice

The on-site terms are zeta_s (n_s - 1/2) for each spin, as in QSZ, SPU1 and U1.
---
 c++/symmetry/sym-NONE-impl.hpp | 4 ++--
 c++/symmetry/sym-P-impl.hpp    | 4 ++--
 c++/symmetry/sym-PP-impl.hpp   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/c++/symmetry/sym-NONE-impl.hpp b/c++/symmetry/sym-NONE-impl.hpp
index 48f7672..72418ab 100644
--- a/c++/symmetry/sym-NONE-impl.hpp
+++ b/c++/symmetry/sym-NONE-impl.hpp
@@ -76,10 +76,10 @@ void SymmetryNONE<SC>::make_matrix_nonpolarized(Matrix &h, const Step &step, con
 #define ISOSPINX(i, j, ch, factor) this->diag_offdiag_function(step, i, j, t_matel(factor) * 2.0 * coef.delta(step.N() + 1, ch), h, qq)
 
 #undef DIAG_UP
-#define DIAG_UP(i, j, ch, number) this->diag_function(step, i, number, coef.zetaUP(step.N() + 1, ch), h, qq)
+#define DIAG_UP(i, j, ch, number) this->diag_function_half(step, i, number, coef.zetaUP(step.N() + 1, ch), h, qq)
 
 #undef DIAG_DOWN
-#define DIAG_DOWN(i, j, ch, number) this->diag_function(step, i, number, coef.zetaDOWN(step.N() + 1, ch), h, qq)
+#define DIAG_DOWN(i, j, ch, number) this->diag_function_half(step, i, number, coef.zetaDOWN(step.N() + 1, ch), h, qq)
 
 template<typename SC>
 void SymmetryNONE<SC>::make_matrix_polarized(Matrix &h, const Step &step, const SubspaceDimensions &qq, const Invar &I, const InvarVec &In, const Opch<SC> &opch, const Coef<SC> &coef) const {
diff --git a/c++/symmetry/sym-P-impl.hpp b/c++/symmetry/sym-P-impl.hpp
index 1fc54cd..180c1b6 100644
--- a/c++/symmetry/sym-P-impl.hpp
+++ b/c++/symmetry/sym-P-impl.hpp
@@ -95,10 +95,10 @@ void SymmetryP<SC>::make_matrix_nonpolarized(Matrix &h, const Step &step, const
 #define ISOSPINX(i, j, ch, factor) this->diag_offdiag_function(step, i, j, t_matel(factor) * 2.0 * coef.delta(step.N() + 1, ch), h, qq)
 
 #undef DIAG_UP
-#define DIAG_UP(i, j, ch, number) this->diag_function(step, i, number, coef.zetaUP(step.N() + 1, ch), h, qq)
+#define DIAG_UP(i, j, ch, number) this->diag_function_half(step, i, number, coef.zetaUP(step.N() + 1, ch), h, qq)
 
 #undef DIAG_DOWN
-#define DIAG_DOWN(i, j, ch, number) this->diag_function(step, i, number, coef.zetaDOWN(step.N() + 1, ch), h, qq)
+#define DIAG_DOWN(i, j, ch, number) this->diag_function_half(step, i, number, coef.zetaDOWN(step.N() + 1, ch), h, qq)
 
 template<typename SC>
 void SymmetryP<SC>::make_matrix_polarized(Matrix &h, const Step &step, const SubspaceDimensions &qq, const Invar &I, const InvarVec &In, const Opch<SC> &opch, const Coef<SC> &coef) const {
diff --git a/c++/symmetry/sym-PP-impl.hpp b/c++/symmetry/sym-PP-impl.hpp
index b19c175..a9cee58 100644
--- a/c++/symmetry/sym-PP-impl.hpp
+++ b/c++/symmetry/sym-PP-impl.hpp
@@ -79,10 +79,10 @@ void SymmetryPP<SC>::make_matrix_nonpolarized(Matrix &h, const Step &step, const
 #define ISOSPINX(i, j, ch, factor) this->diag_offdiag_function(step, i, j, t_matel(factor) * 2.0 * coef.delta(step.N() + 1, ch), h, qq)
 
 #undef DIAG_UP
-#define DIAG_UP(i, j, ch, number) this->diag_function(step, i, number, coef.zetaUP(step.N() + 1, ch), h, qq)
+#define DIAG_UP(i, j, ch, number) this->diag_function_half(step, i, number, coef.zetaUP(step.N() + 1, ch), h, qq)
 
 #undef DIAG_DOWN
-#define DIAG_DOWN(i, j, ch, number) this->diag_function(step, i, number, coef.zetaDOWN(step.N() + 1, ch), h, qq)
+#define DIAG_DOWN(i, j, ch, number) this->diag_function_half(step, i, number, coef.zetaDOWN(step.N() + 1, ch), h, qq)
 
 template<typename SC>
 void SymmetryPP<SC>::make_matrix_polarized(Matrix &h, const Step &step, const SubspaceDimensions &qq, const Invar &I, const InvarVec &In, const Opch<SC> &opch, const Coef<SC> &coef) const {
-- 
2.43.0


From 46ad4632c21b9a386d72c1187cce4572aae55c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:59 +0000
Subject: [PATCH 18/49] fix: DMNRG contracted the transposed density matrix,
 wrong for complex matrix elements

---
 c++/algo_DMNRG.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/c++/algo_DMNRG.hpp b/c++/algo_DMNRG.hpp
index 8ca451c..54e08fc 100644
--- a/c++/algo_DMNRG.hpp
+++ b/c++/algo_DMNRG.hpp
@@ -43,13 +43,13 @@ class Algo_DMNRG : public Algo<S> {
       const auto rhoNIp_kept = submatrix_const(rhoNIp, {0, nrIpKept}, {0, nrIpKept});
       const auto rhoNI1_kept = submatrix_const(rhoNI1, {0, nrI1Kept}, {0, nrI1Kept});
       Matrix sumA(nrI1Kept, nrIpKept);
-      gemm_rowmajor<S>(S(1), op2_kept, GemmTranspose::none, rhoNIp_kept, GemmTranspose::transpose, S(0), sumA);
+      gemm_nn<S>(S(1), op2_kept, rhoNIp_kept, S(0), sumA);
       Matrix op1_conj(nrI1Kept, nrIpKept);
       for (const auto i : range0(nrI1Kept))
         for (const auto j : range0(nrIpKept))
           op1_conj(i, j) = conj_me(op1_kept(i, j));
       Matrix sumB(nrI1Kept, nrIpKept);
-      gemm_nn<S>(S(1), rhoNI1_kept, op1_conj, S(0), sumB);
+      gemm_rowmajor<S>(S(1), rhoNI1_kept, GemmTranspose::transpose, op1_conj, GemmTranspose::none, S(0), sumB);
 
       for (const auto rj: diagI1.kept())
         for (const auto rm: diagIp.kept()) {
@@ -96,13 +96,13 @@ class Algo_DMNRGmats : public Algo<S> {
        const auto rhoNIp_kept = submatrix_const(rhoNIp, {0, nrIpKept}, {0, nrIpKept});
        const auto rhoNI1_kept = submatrix_const(rhoNI1, {0, nrI1Kept}, {0, nrI1Kept});
         Matrix sumA(nrI1Kept, nrIpKept);
-        gemm_rowmajor<S>(S(1), op2_kept, GemmTranspose::none, rhoNIp_kept, GemmTranspose::transpose, S(0), sumA);
+        gemm_nn<S>(S(1), op2_kept, rhoNIp_kept, S(0), sumA);
         Matrix op1_conj(nrI1Kept, nrIpKept);
         for (const auto i : range0(nrI1Kept))
           for (const auto j : range0(nrIpKept))
             op1_conj(i, j) = conj_me(op1_kept(i, j));
         Matrix sumB(nrI1Kept, nrIpKept);
-        gemm_nn<S>(S(1), rhoNI1_kept, op1_conj, S(0), sumB);
+        gemm_rowmajor<S>(S(1), rhoNI1_kept, GemmTranspose::transpose, op1_conj, GemmTranspose::none, S(0), sumB);
 
        const auto term = [this](const auto energy, const auto weightA, const auto weightB, const auto n) {
          if (gt == gf_type::fermionic || n>0 || std::abs(energy) > WEIGHT_TOL) // [[likely]]
-- 
2.43.0


From 871c60746260f083a7a12ddcaf8406bc28ff619a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:41 +0000
Subject: [PATCH 19/49] fix: spin triplet spectra of isospin symmetry types
 used the default susceptibility factor

---
 c++/symmetry/sym-ISO-impl.hpp     | 9 +++++++++
 c++/symmetry/sym-ISOLR-impl.hpp   | 9 +++++++++
 c++/symmetry/sym-ISOSZ-impl.hpp   | 5 +++++
 c++/symmetry/sym-ISOSZLR-impl.hpp | 5 +++++
 4 files changed, 28 insertions(+)

diff --git a/c++/symmetry/sym-ISO-impl.hpp b/c++/symmetry/sym-ISO-impl.hpp
index cc9804a..0a160ae 100644
--- a/c++/symmetry/sym-ISO-impl.hpp
+++ b/c++/symmetry/sym-ISO-impl.hpp
@@ -33,6 +33,15 @@ class SymmetryISOcommon : public Symmetry<SC> {
     return isospin_ok && spin_ok;
   }
 
+  double dynamicsusceptibility_factor(const Invar &Ip, const Invar &I1) const override {
+    check_diff(Ip, I1, "II", 0);
+    const int ssp = Ip.get("SS");
+    const int ss1 = I1.get("SS");
+    my_assert((std::abs(ss1 - ssp) == 2 || ss1 == ssp));
+    const double spinfactor = switch3(ss1, ssp + 2, 1. + (ssp - 1) / 3., ssp, ssp / 3., ssp - 2, (-2. + ssp) / 3.);
+    return spinfactor * Ip.get("II");
+  }
+
   double specdens_factor(const Invar &Ip, const Invar &I1) const override {
     const int ssp = Ip.get("SS");
     const int ss1 = I1.get("SS");
diff --git a/c++/symmetry/sym-ISOLR-impl.hpp b/c++/symmetry/sym-ISOLR-impl.hpp
index 8485b13..e52d524 100644
--- a/c++/symmetry/sym-ISOLR-impl.hpp
+++ b/c++/symmetry/sym-ISOLR-impl.hpp
@@ -30,6 +30,15 @@ class SymmetryISOLRcommon : public SymLR<SC> {
     return su2_triangle_inequality(I1.get("II"), I2.get("II"), I3.get("II")) && su2_triangle_inequality(I1.get("SS"), I2.get("SS"), I3.get("SS"))
        && z2_equality(I1.get("P"), I2.get("P"), I3.get("P"));
   }
+  double dynamicsusceptibility_factor(const Invar &Ip, const Invar &I1) const override {
+    check_diff(Ip, I1, "II", 0);
+    const int ssp = Ip.get("SS");
+    const int ss1 = I1.get("SS");
+    my_assert((std::abs(ss1 - ssp) == 2 || ss1 == ssp));
+    const double spinfactor = switch3(ss1, ssp + 2, 1. + (ssp - 1) / 3., ssp, ssp / 3., ssp - 2, (-2. + ssp) / 3.);
+    return spinfactor * Ip.get("II");
+  }
+
   double specdens_factor(const Invar &Ip, const Invar &I1) const override {
     const int ssp = Ip.get("SS");
     const int ss1 = I1.get("SS");
diff --git a/c++/symmetry/sym-ISOSZ-impl.hpp b/c++/symmetry/sym-ISOSZ-impl.hpp
index defb283..86c0ac9 100644
--- a/c++/symmetry/sym-ISOSZ-impl.hpp
+++ b/c++/symmetry/sym-ISOSZ-impl.hpp
@@ -45,6 +45,11 @@ class SymmetryISOSZ : public SymField<SC> {
       default: my_assert_not_reached();
     }
   }
+  double dynamicsusceptibility_factor(const Invar &Ip, const Invar &I1) const override {
+    check_diff(Ip, I1, "II", 0);
+    return Ip.get("II");
+  }
+
   double specdens_factor(const Invar &Ip, const Invar &I1) const override {
     check_abs_diff(Ip, I1, "SSZ", 1);
     const int iip = Ip.get("II");
diff --git a/c++/symmetry/sym-ISOSZLR-impl.hpp b/c++/symmetry/sym-ISOSZLR-impl.hpp
index 82baa3e..7d03a9a 100644
--- a/c++/symmetry/sym-ISOSZLR-impl.hpp
+++ b/c++/symmetry/sym-ISOSZLR-impl.hpp
@@ -35,6 +35,11 @@ class SymmetryISOSZLR : public SymFieldLR<SC> {
 #include "isoszlr/isoszlr-2ch-In2.dat"
 #include "isoszlr/isoszlr-2ch-QN.dat"
   }
+  double dynamicsusceptibility_factor(const Invar &Ip, const Invar &I1) const override {
+    check_diff(Ip, I1, "II", 0);
+    return Ip.get("II");
+  }
+
   double specdens_factor(const Invar &Ip, const Invar &I1) const override {
     check_abs_diff(Ip, I1, "SSZ", 1);
     const int iip = Ip.get("II");
-- 
2.43.0


From 9a6f051117e164db5498ea4a0d47920686e93277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:41 +0000
Subject: [PATCH 20/49] fix: SPU1LR recursions combined subspaces without their
 parity

---
 c++/symmetry/nrg-recalc-SPU1LR.hpp    | 10 +++++-----
 c++/symmetry/nrg-recalc-SPU1LR.hpp.m4 | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/c++/symmetry/nrg-recalc-SPU1LR.hpp b/c++/symmetry/nrg-recalc-SPU1LR.hpp
index dbfc179..8667e11 100644
--- a/c++/symmetry/nrg-recalc-SPU1LR.hpp
+++ b/c++/symmetry/nrg-recalc-SPU1LR.hpp
@@ -36,7 +36,7 @@ MatrixElements<SC> SymmetrySPU1LR<SC>::recalc_doublet(const DiagInfo<SC> &diag,
     int p1      = I1.get("P");
     Invar Ip;
 
-    Ip = Invar(ssz1 + 1);
+    Ip = Invar(ssz1 + 1, p1);
     switch (P.channels) {
   case 1: { {
   nrglog('f', "RECALC(fn=" << "spu1lr/spu1lr-1ch-doubletp.dat" << ", Iop=" << Invar(-1, 1) << ")");
@@ -63,7 +63,7 @@ MatrixElements<SC> SymmetrySPU1LR<SC>::recalc_doublet(const DiagInfo<SC> &diag,
   default: my_assert_not_reached();
   };
 
-    Ip = Invar(ssz1-1);
+    Ip = Invar(ssz1 - 1, p1);
     switch (P.channels) {
   case 1: { {
   nrglog('f', "RECALC(fn=" << "spu1lr/spu1lr-1ch-doubletm.dat" << ", Iop=" << Invar(+1, 1) << ")");
@@ -232,7 +232,7 @@ MatrixElements<SC> SymmetrySPU1LR<SC>::recalc_triplet(const DiagInfo<SC> &diag,
     int p1      = I1.get("P");
     Invar Ip;
 
-    Ip = Invar(ssz1);
+    Ip = Invar(ssz1, p1);
     switch (P.channels) {
   case 1: { {
   nrglog('f', "RECALC(fn=" << "spu1lr/spu1lr-1ch-triplets.dat" << ", Iop=" << Invar(0, 1) << ")");
@@ -259,7 +259,7 @@ MatrixElements<SC> SymmetrySPU1LR<SC>::recalc_triplet(const DiagInfo<SC> &diag,
   default: my_assert_not_reached();
   };
 
-    Ip = Invar(ssz1+2);
+    Ip = Invar(ssz1 + 2, p1);
     switch (P.channels) {
   case 1: { {
   nrglog('f', "RECALC(fn=" << "spu1lr/spu1lr-1ch-tripletp.dat" << ", Iop=" << Invar(-2, 1) << ")");
@@ -286,7 +286,7 @@ MatrixElements<SC> SymmetrySPU1LR<SC>::recalc_triplet(const DiagInfo<SC> &diag,
   default: my_assert_not_reached();
   };
 
-    Ip = Invar(ssz1-2);
+    Ip = Invar(ssz1 - 2, p1);
     switch (P.channels) {
   case 1: { {
   nrglog('f', "RECALC(fn=" << "spu1lr/spu1lr-1ch-tripletm.dat" << ", Iop=" << Invar(+2, 1) << ")");
diff --git a/c++/symmetry/nrg-recalc-SPU1LR.hpp.m4 b/c++/symmetry/nrg-recalc-SPU1LR.hpp.m4
index 6d02649..b915bc6 100644
--- a/c++/symmetry/nrg-recalc-SPU1LR.hpp.m4
+++ b/c++/symmetry/nrg-recalc-SPU1LR.hpp.m4
@@ -16,11 +16,11 @@ MatrixElements<SC> SymmetrySPU1LR<SC>::recalc_doublet(const DiagInfo<SC> &diag,
     int p1      = I1.get("P");
     Invar Ip;
 
-    Ip = Invar(ssz1 + 1);
+    Ip = Invar(ssz1 + 1, p1);
     ONETWO(`RECALC_TAB("spu1lr/spu1lr-1ch-doubletp.dat", Invar(-1, 1))',
            `RECALC_TAB("spu1lr/spu1lr-2ch-doubletp.dat", Invar(-1, 1))');
 
-    Ip = Invar(ssz1-1);
+    Ip = Invar(ssz1 - 1, p1);
     ONETWO(`RECALC_TAB("spu1lr/spu1lr-1ch-doubletm.dat", Invar(+1, 1))',
            `RECALC_TAB("spu1lr/spu1lr-2ch-doubletm.dat", Invar(+1, 1))');
   }
@@ -72,15 +72,15 @@ MatrixElements<SC> SymmetrySPU1LR<SC>::recalc_triplet(const DiagInfo<SC> &diag,
     int p1      = I1.get("P");
     Invar Ip;
 
-    Ip = Invar(ssz1);
+    Ip = Invar(ssz1, p1);
     ONETWO(`RECALC_TAB("spu1lr/spu1lr-1ch-triplets.dat", Invar(0, 1))',
            `RECALC_TAB("spu1lr/spu1lr-2ch-triplets.dat", Invar(0, 1))');
 
-    Ip = Invar(ssz1+2);
+    Ip = Invar(ssz1 + 2, p1);
     ONETWO(`RECALC_TAB("spu1lr/spu1lr-1ch-tripletp.dat", Invar(-2, 1))',
            `RECALC_TAB("spu1lr/spu1lr-2ch-tripletp.dat", Invar(-2, 1))');
 
-    Ip = Invar(ssz1-2);
+    Ip = Invar(ssz1 - 2, p1);
     ONETWO(`RECALC_TAB("spu1lr/spu1lr-1ch-tripletm.dat", Invar(+2, 1))',
            `RECALC_TAB("spu1lr/spu1lr-2ch-tripletm.dat", Invar(+2, 1))');
   }
-- 
2.43.0


From e570d00558c9a0c551bebe480120ad85d5bc413d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:41 +0000
Subject: [PATCH 21/49] fix: SPSU2LR had the wrong quantum numbers for the
 singlet and for operators

---
 c++/symmetry/nrg-recalc-SPSU2LR.hpp    | 20 ++++++++++----------
 c++/symmetry/nrg-recalc-SPSU2LR.hpp.m4 | 10 +++++-----
 c++/symmetry/sym-SPSU2LR-impl.hpp      |  4 +---
 3 files changed, 16 insertions(+), 18 deletions(-)

diff --git a/c++/symmetry/nrg-recalc-SPSU2LR.hpp b/c++/symmetry/nrg-recalc-SPSU2LR.hpp
index f49dec0..4f96290 100644
--- a/c++/symmetry/nrg-recalc-SPSU2LR.hpp
+++ b/c++/symmetry/nrg-recalc-SPSU2LR.hpp
@@ -38,26 +38,26 @@ MatrixElements<SC> SymmetrySPSU2LR<SC>::recalc_doublet(const DiagInfo<SC> &diag,
 
     Ip = Invar(ss1 + 1, p1);
     {
-  nrglog('f', "RECALC(fn=" << "spsu2lr/spsu2lr-2ch-doubletp.dat" << ", Iop=" << Invar(-1, 1) << ")");
+  nrglog('f', "RECALC(fn=" << "spsu2lr/spsu2lr-2ch-doubletp.dat" << ", Iop=" << Invar(2, 1) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "spsu2lr/spsu2lr-2ch-doubletp.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(-1, 1));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(2, 1));
     if (cn) cnew[II] = *cn;
   }
 };
 
     Ip = Invar(ss1 - 1, p1);
     {
-  nrglog('f', "RECALC(fn=" << "spsu2lr/spsu2lr-2ch-doubletm.dat" << ", Iop=" << Invar(+1, 1) << ")");
+  nrglog('f', "RECALC(fn=" << "spsu2lr/spsu2lr-2ch-doubletm.dat" << ", Iop=" << Invar(2, 1) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "spsu2lr/spsu2lr-2ch-doubletm.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(+1, 1));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(2, 1));
     if (cn) cnew[II] = *cn;
   }
 };
@@ -178,39 +178,39 @@ MatrixElements<SC> SymmetrySPSU2LR<SC>::recalc_triplet(const DiagInfo<SC> &diag,
 
     Ip = Invar(ss1, p1);
     {
-  nrglog('f', "RECALC(fn=" << "spsu2lr/spsu2lr-2ch-triplets.dat" << ", Iop=" << Invar(0, 1) << ")");
+  nrglog('f', "RECALC(fn=" << "spsu2lr/spsu2lr-2ch-triplets.dat" << ", Iop=" << Invar(3, 1) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "spsu2lr/spsu2lr-2ch-triplets.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(0, 1));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(3, 1));
     if (cn) cnew[II] = *cn;
   }
 };
 
     Ip = Invar(ss1 + 2, p1);
     {
-  nrglog('f', "RECALC(fn=" << "spsu2lr/spsu2lr-2ch-tripletp.dat" << ", Iop=" << Invar(-2, 1) << ")");
+  nrglog('f', "RECALC(fn=" << "spsu2lr/spsu2lr-2ch-tripletp.dat" << ", Iop=" << Invar(3, 1) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "spsu2lr/spsu2lr-2ch-tripletp.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(-2, 1));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(3, 1));
     if (cn) cnew[II] = *cn;
   }
 };
 
     Ip = Invar(ss1 - 2, p1);
     {
-  nrglog('f', "RECALC(fn=" << "spsu2lr/spsu2lr-2ch-tripletm.dat" << ", Iop=" << Invar(+2, 1) << ")");
+  nrglog('f', "RECALC(fn=" << "spsu2lr/spsu2lr-2ch-tripletm.dat" << ", Iop=" << Invar(3, 1) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "spsu2lr/spsu2lr-2ch-tripletm.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(+2, 1));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(3, 1));
     if (cn) cnew[II] = *cn;
   }
 };
diff --git a/c++/symmetry/nrg-recalc-SPSU2LR.hpp.m4 b/c++/symmetry/nrg-recalc-SPSU2LR.hpp.m4
index f5d9c8b..d8dfe2a 100644
--- a/c++/symmetry/nrg-recalc-SPSU2LR.hpp.m4
+++ b/c++/symmetry/nrg-recalc-SPSU2LR.hpp.m4
@@ -17,10 +17,10 @@ MatrixElements<SC> SymmetrySPSU2LR<SC>::recalc_doublet(const DiagInfo<SC> &diag,
     Invar Ip;
 
     Ip = Invar(ss1 + 1, p1);
-    RECALC_TAB("spsu2lr/spsu2lr-2ch-doubletp.dat", Invar(-1, 1));
+    RECALC_TAB("spsu2lr/spsu2lr-2ch-doubletp.dat", Invar(2, 1));
 
     Ip = Invar(ss1 - 1, p1);
-    RECALC_TAB("spsu2lr/spsu2lr-2ch-doubletm.dat", Invar(+1, 1));
+    RECALC_TAB("spsu2lr/spsu2lr-2ch-doubletm.dat", Invar(2, 1));
   }
   return cnew;
 }
@@ -65,13 +65,13 @@ MatrixElements<SC> SymmetrySPSU2LR<SC>::recalc_triplet(const DiagInfo<SC> &diag,
     Invar Ip;
 
     Ip = Invar(ss1, p1);
-    RECALC_TAB("spsu2lr/spsu2lr-2ch-triplets.dat", Invar(0, 1));
+    RECALC_TAB("spsu2lr/spsu2lr-2ch-triplets.dat", Invar(3, 1));
 
     Ip = Invar(ss1 + 2, p1);
-    RECALC_TAB("spsu2lr/spsu2lr-2ch-tripletp.dat", Invar(-2, 1));
+    RECALC_TAB("spsu2lr/spsu2lr-2ch-tripletp.dat", Invar(3, 1));
 
     Ip = Invar(ss1 - 2, p1);
-    RECALC_TAB("spsu2lr/spsu2lr-2ch-tripletm.dat", Invar(+2, 1));
+    RECALC_TAB("spsu2lr/spsu2lr-2ch-tripletm.dat", Invar(3, 1));
   }
   return cnew;
 }
diff --git a/c++/symmetry/sym-SPSU2LR-impl.hpp b/c++/symmetry/sym-SPSU2LR-impl.hpp
index ca3835b..cd7cf20 100644
--- a/c++/symmetry/sym-SPSU2LR-impl.hpp
+++ b/c++/symmetry/sym-SPSU2LR-impl.hpp
@@ -10,7 +10,7 @@ class SymmetrySPSU2LR : public SymLR<SC> {
  public:
    using Matrix = typename traits<SC>::Matrix;
    using t_matel = typename traits<SC>::t_matel;
-   SymmetrySPSU2LR(const Params &P) : SymLR<SC>(P, std::vector{"<Sz^2>"}, Invar(0,1)) {
+   SymmetrySPSU2LR(const Params &P) : SymLR<SC>(P, std::vector{"<Sz^2>"}, Invar(1,1)) {
      initInvar({
         {"SS", additive},     // spin
         {"P", multiplicative} // parity
@@ -32,7 +32,6 @@ class SymmetrySPSU2LR : public SymLR<SC> {
   }
 
   double dynamicsusceptibility_factor(const Invar &Ip, const Invar &I1) const override {
-    check_diff(Ip, I1, "Q", 0);
     const int ssp = Ip.get("SS");
     const int ss1 = I1.get("SS");
     my_assert((std::abs(ss1 - ssp) == 2 || ss1 == ssp));
@@ -40,7 +39,6 @@ class SymmetrySPSU2LR : public SymLR<SC> {
   }
 
   double specdens_factor(const Invar &Ip, const Invar &I1) const override {
-    check_diff(Ip, I1, "Q", 1);
     const int ssp = Ip.get("SS");
     const int ss1 = I1.get("SS");
     return (ss1 == ssp + 1 ? S(ssp) + 1.0 : S(ssp));
-- 
2.43.0


From 1c989c4128c290bc70dec1f5fab9b6a200e47cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:41 +0000
Subject: [PATCH 22/49] fix: DBLSU2 operators carried wrong quantum numbers and
 spectral weights

---
 c++/symmetry/nrg-recalc-DBLSU2.hpp    | 16 ++++++++--------
 c++/symmetry/nrg-recalc-DBLSU2.hpp.m4 |  8 ++++----
 c++/symmetry/sym-DBLSU2-impl.hpp      | 14 +++++++++++---
 3 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/c++/symmetry/nrg-recalc-DBLSU2.hpp b/c++/symmetry/nrg-recalc-DBLSU2.hpp
index 8c58253..4557dfd 100644
--- a/c++/symmetry/nrg-recalc-DBLSU2.hpp
+++ b/c++/symmetry/nrg-recalc-DBLSU2.hpp
@@ -38,52 +38,52 @@ MatrixElements<SC> SymmetryDBLSU2<SC>::recalc_doublet(const DiagInfo<SC> &diag,
 
     Ip = Invar(ii11 - 1, ii21);
     {
-  nrglog('f', "RECALC(fn=" << "dblsu2/dblsu2-2ch-doubletm0.dat" << ", Iop=" << Invar(2, 0) << ")");
+  nrglog('f', "RECALC(fn=" << "dblsu2/dblsu2-2ch-doubletm0.dat" << ", Iop=" << Invar(2, 1) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "dblsu2/dblsu2-2ch-doubletm0.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(2, 0));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(2, 1));
     if (cn) cnew[II] = *cn;
   }
 };
 
     Ip = Invar(ii11 + 1, ii21);
     {
-  nrglog('f', "RECALC(fn=" << "dblsu2/dblsu2-2ch-doubletp0.dat" << ", Iop=" << Invar(2, 0) << ")");
+  nrglog('f', "RECALC(fn=" << "dblsu2/dblsu2-2ch-doubletp0.dat" << ", Iop=" << Invar(2, 1) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "dblsu2/dblsu2-2ch-doubletp0.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(2, 0));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(2, 1));
     if (cn) cnew[II] = *cn;
   }
 };
 
     Ip = Invar(ii11, ii21 - 1);
     {
-  nrglog('f', "RECALC(fn=" << "dblsu2/dblsu2-2ch-doublet0m.dat" << ", Iop=" << Invar(0, 2) << ")");
+  nrglog('f', "RECALC(fn=" << "dblsu2/dblsu2-2ch-doublet0m.dat" << ", Iop=" << Invar(1, 2) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "dblsu2/dblsu2-2ch-doublet0m.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(0, 2));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(1, 2));
     if (cn) cnew[II] = *cn;
   }
 };
 
     Ip = Invar(ii11, ii21 + 1);
     {
-  nrglog('f', "RECALC(fn=" << "dblsu2/dblsu2-2ch-doublet0p.dat" << ", Iop=" << Invar(0, 2) << ")");
+  nrglog('f', "RECALC(fn=" << "dblsu2/dblsu2-2ch-doublet0p.dat" << ", Iop=" << Invar(1, 2) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "dblsu2/dblsu2-2ch-doublet0p.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(0, 2));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(1, 2));
     if (cn) cnew[II] = *cn;
   }
 };
diff --git a/c++/symmetry/nrg-recalc-DBLSU2.hpp.m4 b/c++/symmetry/nrg-recalc-DBLSU2.hpp.m4
index 27c052b..966bdca 100644
--- a/c++/symmetry/nrg-recalc-DBLSU2.hpp.m4
+++ b/c++/symmetry/nrg-recalc-DBLSU2.hpp.m4
@@ -17,16 +17,16 @@ MatrixElements<SC> SymmetryDBLSU2<SC>::recalc_doublet(const DiagInfo<SC> &diag,
     Invar Ip;
 
     Ip = Invar(ii11 - 1, ii21);
-    RECALC_TAB("dblsu2/dblsu2-2ch-doubletm0.dat", Invar(2, 0));
+    RECALC_TAB("dblsu2/dblsu2-2ch-doubletm0.dat", Invar(2, 1));
 
     Ip = Invar(ii11 + 1, ii21);
-    RECALC_TAB("dblsu2/dblsu2-2ch-doubletp0.dat", Invar(2, 0));
+    RECALC_TAB("dblsu2/dblsu2-2ch-doubletp0.dat", Invar(2, 1));
 
     Ip = Invar(ii11, ii21 - 1);
-    RECALC_TAB("dblsu2/dblsu2-2ch-doublet0m.dat", Invar(0, 2));
+    RECALC_TAB("dblsu2/dblsu2-2ch-doublet0m.dat", Invar(1, 2));
 
     Ip = Invar(ii11, ii21 + 1);
-    RECALC_TAB("dblsu2/dblsu2-2ch-doublet0p.dat", Invar(0, 2));
+    RECALC_TAB("dblsu2/dblsu2-2ch-doublet0p.dat", Invar(1, 2));
   }
   return cnew;
 }
diff --git a/c++/symmetry/sym-DBLSU2-impl.hpp b/c++/symmetry/sym-DBLSU2-impl.hpp
index 4ce5c88..15eb77e 100644
--- a/c++/symmetry/sym-DBLSU2-impl.hpp
+++ b/c++/symmetry/sym-DBLSU2-impl.hpp
@@ -32,9 +32,17 @@ class SymmetryDBLSU2 : public Symmetry<SC> {
   double specdens_factor(const Invar &Ip, const Invar &I1) const override {
     const int ii1p = Ip.get("II1");
     const int ii11 = I1.get("II1");
-    my_assert(std::abs(ii11 - ii1p) == 1);
-    const double isofactor = (ii11 == ii1p + 1 ? ISO(ii1p) + 1.0 : ISO(ii1p));
-    return isofactor;
+    const int ii2p = Ip.get("II2");
+    const int ii21 = I1.get("II2");
+    if (std::abs(ii11 - ii1p) == 1) {
+      my_assert(ii2p == ii21);
+      return (ii11 == ii1p + 1 ? ISO(ii1p) + 1.0 : ISO(ii1p)) * ii2p; // ii2p = multiplicity wrt 2nd isospin
+    }
+    if (std::abs(ii21 - ii2p) == 1) {
+      my_assert(ii1p == ii11);
+      return (ii21 == ii2p + 1 ? ISO(ii2p) + 1.0 : ISO(ii2p)) * ii1p; // ii1p = multiplicity wrt 1st isospin
+    }
+    my_assert_not_reached();
   }
 
   void load() override {
-- 
2.43.0


From 0ff89eefd2371bfa798cbff719bbfa3edf5b5b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:41 +0000
Subject: [PATCH 23/49] fix: odd-parity singlet operators aborted on parity
 inversion

---
 c++/invar.hpp    | 2 +-
 c++/symmetry.hpp | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/c++/invar.hpp b/c++/invar.hpp
index 9d75952..2712d80 100644
--- a/c++/invar.hpp
+++ b/c++/invar.hpp
@@ -51,7 +51,7 @@ class Invar {
    // more fancy terms) the dimension of the Cartan subalgebra of the full symmetry algebra.
    inline static size_t invdim = 0; // 0 before initialization!
    Invar() : data(invdim) {}
-   explicit Invar(const InvType &d) {
+   explicit Invar(const InvType &d) : data(invdim) {
      my_assert(d.size() == data.size());
      data = d;
    }
diff --git a/c++/symmetry.hpp b/c++/symmetry.hpp
index 1657b1a..60ba08f 100644
--- a/c++/symmetry.hpp
+++ b/c++/symmetry.hpp
@@ -204,6 +204,7 @@ class Symmetry {
      for (const auto &I : diag.subspaces()) {
        const Invar I1 = I;
        const Invar Ip = parity == -1 ? I.InvertParity() : I;
+       if (parity == -1 && !have_stored_subspaces(diag, I1, Ip)) continue; // no partner subspace of opposite parity
        std::vector<Recalc<S>> recalc_table;
        for (const auto i: combs()) {
          const auto anc = ancestor(I, i);
-- 
2.43.0


From a75fc45bab567f9447b09da53a4c867b823c6040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:41 +0000
Subject: [PATCH 24/49] fix: ISOLR recursion table missed a sign for
 odd-electron site states

---
 .../coefnew/isolr/isolr-2ch-doubletmm.dat     | 36 +++++++++----------
 .../coefnew/isolr/isolr-2ch-doubletmp.dat     | 36 +++++++++----------
 .../coefnew/isolr/isolr-2ch-doubletpm.dat     | 36 +++++++++----------
 .../coefnew/isolr/isolr-2ch-doubletpp.dat     | 36 +++++++++----------
 4 files changed, 72 insertions(+), 72 deletions(-)

diff --git a/c++/symmetry/coefnew/isolr/isolr-2ch-doubletmm.dat b/c++/symmetry/coefnew/isolr/isolr-2ch-doubletmm.dat
index 15e5bf6..ef94784 100644
--- a/c++/symmetry/coefnew/isolr/isolr-2ch-doubletmm.dat
+++ b/c++/symmetry/coefnew/isolr/isolr-2ch-doubletmm.dat
@@ -5,24 +5,24 @@
 { 4, 4, Invar(ii1, ss1, -p1), Invar(-1 + ii1, -1 + ss1, -p1), (S(ss1)*(-1 + 2*S(ss1)) + sqrt(-1 + 4*Power(S(ss1),2))*sqrt(1 - 2/(1 + 2*S(ss1))))/sqrt(S(ss1)*(1 + S(ss1))*(-1 + 4*Power(S(ss1),2)))},
 { 4, 5, Invar(ii1, ss1, -p1), Invar(-1 + ii1, 1 + ss1, -p1), 1/sqrt((1 + S(ss1))*(1 + 2*S(ss1)))},
 { 5, 5, Invar(ii1, 2 + ss1, -p1), Invar(-1 + ii1, 1 + ss1, -p1), sqrt((S(ss1)*(3 + 4*S(ss1)*(2 + S(ss1))))/(1 + S(ss1)))/(1 + 2*S(ss1))},
-{ 6, 6, Invar(-1 + ii1, -1 + ss1, -p1), Invar(-2 + ii1, -2 + ss1, -p1), 1},
-{ 6, 7, Invar(-1 + ii1, -1 + ss1, -p1), Invar(ii1, -2 + ss1, -p1), 1/(1 + 2*ISO(ii1))},
-{ 6, 8, Invar(-1 + ii1, -1 + ss1, -p1), Invar(-2 + ii1, ss1, -p1), 1/(1 + 2*S(ss1))},
-{ 6, 9, Invar(-1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), 1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 7, 7, Invar(1 + ii1, -1 + ss1, -p1), Invar(ii1, -2 + ss1, -p1), (2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1))},
-{ 7, 9, Invar(1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), (2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 8, 8, Invar(-1 + ii1, 1 + ss1, -p1), Invar(-2 + ii1, ss1, -p1), (2*sqrt(S(ss1)*(1 + S(ss1))))/(1 + 2*S(ss1))},
-{ 8, 9, Invar(-1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), (2*sqrt(S(ss1) + Power(S(ss1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 9, 9, Invar(1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), (4*sqrt(ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1))*(1 + 2*S(ss1))))/((1 + 2*ISO(ii1))*Power(1 + 2*S(ss1),1.5))},
-{ 10, 10, Invar(-1 + ii1, -1 + ss1, p1), Invar(-2 + ii1, -2 + ss1, p1), 1},
-{ 10, 11, Invar(-1 + ii1, -1 + ss1, p1), Invar(ii1, -2 + ss1, p1), 1/(1 + 2*ISO(ii1))},
-{ 10, 12, Invar(-1 + ii1, -1 + ss1, p1), Invar(-2 + ii1, ss1, p1), 1/(1 + 2*S(ss1))},
-{ 10, 13, Invar(-1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), 1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 11, 11, Invar(1 + ii1, -1 + ss1, p1), Invar(ii1, -2 + ss1, p1), (2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1))},
-{ 11, 13, Invar(1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), (2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 12, 12, Invar(-1 + ii1, 1 + ss1, p1), Invar(-2 + ii1, ss1, p1), (2*sqrt(S(ss1)*(1 + S(ss1))))/(1 + 2*S(ss1))},
-{ 12, 13, Invar(-1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), (2*sqrt(S(ss1) + Power(S(ss1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 13, 13, Invar(1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), (4*sqrt(ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1))*(1 + 2*S(ss1))))/((1 + 2*ISO(ii1))*Power(1 + 2*S(ss1),1.5))},
+{ 6, 6, Invar(-1 + ii1, -1 + ss1, -p1), Invar(-2 + ii1, -2 + ss1, -p1), -1},
+{ 6, 7, Invar(-1 + ii1, -1 + ss1, -p1), Invar(ii1, -2 + ss1, -p1), -(1/(1 + 2*ISO(ii1)))},
+{ 6, 8, Invar(-1 + ii1, -1 + ss1, -p1), Invar(-2 + ii1, ss1, -p1), -(1/(1 + 2*S(ss1)))},
+{ 6, 9, Invar(-1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), -(1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 7, 7, Invar(1 + ii1, -1 + ss1, -p1), Invar(ii1, -2 + ss1, -p1), -((2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1)))},
+{ 7, 9, Invar(1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), -((2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 8, 8, Invar(-1 + ii1, 1 + ss1, -p1), Invar(-2 + ii1, ss1, -p1), -((2*sqrt(S(ss1)*(1 + S(ss1))))/(1 + 2*S(ss1)))},
+{ 8, 9, Invar(-1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), -((2*sqrt(S(ss1) + Power(S(ss1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 9, 9, Invar(1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), -((4*sqrt(ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1))*(1 + 2*S(ss1))))/((1 + 2*ISO(ii1))*Power(1 + 2*S(ss1),1.5)))},
+{ 10, 10, Invar(-1 + ii1, -1 + ss1, p1), Invar(-2 + ii1, -2 + ss1, p1), -1},
+{ 10, 11, Invar(-1 + ii1, -1 + ss1, p1), Invar(ii1, -2 + ss1, p1), -(1/(1 + 2*ISO(ii1)))},
+{ 10, 12, Invar(-1 + ii1, -1 + ss1, p1), Invar(-2 + ii1, ss1, p1), -(1/(1 + 2*S(ss1)))},
+{ 10, 13, Invar(-1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), -(1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 11, 11, Invar(1 + ii1, -1 + ss1, p1), Invar(ii1, -2 + ss1, p1), -((2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1)))},
+{ 11, 13, Invar(1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), -((2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 12, 12, Invar(-1 + ii1, 1 + ss1, p1), Invar(-2 + ii1, ss1, p1), -((2*sqrt(S(ss1)*(1 + S(ss1))))/(1 + 2*S(ss1)))},
+{ 12, 13, Invar(-1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), -((2*sqrt(S(ss1) + Power(S(ss1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 13, 13, Invar(1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), -((4*sqrt(ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1))*(1 + 2*S(ss1))))/((1 + 2*ISO(ii1))*Power(1 + 2*S(ss1),1.5)))},
 { 14, 14, Invar(-2 + ii1, ss1, p1), Invar(-3 + ii1, -1 + ss1, p1), sqrt(1/(-1 + 2*ISO(ii1)))*sqrt(-1 + 2*ISO(ii1))},
 { 14, 15, Invar(-2 + ii1, ss1, p1), Invar(-1 + ii1, -1 + ss1, p1), sqrt(1/(-ISO(ii1) + 2*Power(ISO(ii1),2)))*sqrt(1 - 2/(1 + 2*ISO(ii1)))},
 { 15, 15, Invar(ii1, ss1, p1), Invar(-1 + ii1, -1 + ss1, p1), (ISO(ii1)*(-1 + 2*ISO(ii1)) + sqrt(-1 + 4*Power(ISO(ii1),2))*sqrt(1 - 2/(1 + 2*ISO(ii1))))/sqrt(ISO(ii1)*(1 + ISO(ii1))*(-1 + 4*Power(ISO(ii1),2)))},
diff --git a/c++/symmetry/coefnew/isolr/isolr-2ch-doubletmp.dat b/c++/symmetry/coefnew/isolr/isolr-2ch-doubletmp.dat
index dd25e32..b9b5378 100644
--- a/c++/symmetry/coefnew/isolr/isolr-2ch-doubletmp.dat
+++ b/c++/symmetry/coefnew/isolr/isolr-2ch-doubletmp.dat
@@ -5,24 +5,24 @@
 { 4, 4, Invar(ii1, ss1, -p1), Invar(-1 + ii1, 1 + ss1, -p1), (S(ss1)*(3 + 2*S(ss1)))/sqrt(S(ss1)*(1 + S(ss1))*(3 + 4*S(ss1)*(2 + S(ss1))))},
 { 5, 4, Invar(ii1, 2 + ss1, -p1), Invar(-1 + ii1, 1 + ss1, -p1), -(1/sqrt((1 + S(ss1))*(1 + 2*S(ss1))))},
 { 5, 5, Invar(ii1, 2 + ss1, -p1), Invar(-1 + ii1, 3 + ss1, -p1), 1},
-{ 6, 6, Invar(-1 + ii1, -1 + ss1, -p1), Invar(-2 + ii1, ss1, -p1), (2*sqrt(S(ss1)*(1 + S(ss1))))/(1 + 2*S(ss1))},
-{ 6, 7, Invar(-1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), 2*sqrt((S(ss1)*(1 + S(ss1)))/(Power(1 + 2*ISO(ii1),2)*Power(1 + 2*S(ss1),2)))},
-{ 7, 7, Invar(1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), (4*sqrt((ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1)))/Power(1 + 2*S(ss1),2)))/(1 + 2*ISO(ii1))},
-{ 8, 6, Invar(-1 + ii1, 1 + ss1, -p1), Invar(-2 + ii1, ss1, -p1), 1/(-1 - 2*S(ss1))},
-{ 8, 7, Invar(-1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), -(1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
-{ 8, 8, Invar(-1 + ii1, 1 + ss1, -p1), Invar(-2 + ii1, 2 + ss1, -p1), 1},
-{ 8, 9, Invar(-1 + ii1, 1 + ss1, -p1), Invar(ii1, 2 + ss1, -p1), 1/(1 + 2*ISO(ii1))},
-{ 9, 7, Invar(1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), (-2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 9, 9, Invar(1 + ii1, 1 + ss1, -p1), Invar(ii1, 2 + ss1, -p1), (2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1))},
-{ 10, 10, Invar(-1 + ii1, -1 + ss1, p1), Invar(-2 + ii1, ss1, p1), (2*sqrt(S(ss1)*(1 + S(ss1))))/(1 + 2*S(ss1))},
-{ 10, 11, Invar(-1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), 2*sqrt((S(ss1)*(1 + S(ss1)))/(Power(1 + 2*ISO(ii1),2)*Power(1 + 2*S(ss1),2)))},
-{ 11, 11, Invar(1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), (4*sqrt((ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1)))/Power(1 + 2*S(ss1),2)))/(1 + 2*ISO(ii1))},
-{ 12, 10, Invar(-1 + ii1, 1 + ss1, p1), Invar(-2 + ii1, ss1, p1), 1/(-1 - 2*S(ss1))},
-{ 12, 11, Invar(-1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), -(1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
-{ 12, 12, Invar(-1 + ii1, 1 + ss1, p1), Invar(-2 + ii1, 2 + ss1, p1), 1},
-{ 12, 13, Invar(-1 + ii1, 1 + ss1, p1), Invar(ii1, 2 + ss1, p1), 1/(1 + 2*ISO(ii1))},
-{ 13, 11, Invar(1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), (-2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 13, 13, Invar(1 + ii1, 1 + ss1, p1), Invar(ii1, 2 + ss1, p1), (2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1))},
+{ 6, 6, Invar(-1 + ii1, -1 + ss1, -p1), Invar(-2 + ii1, ss1, -p1), -((2*sqrt(S(ss1)*(1 + S(ss1))))/(1 + 2*S(ss1)))},
+{ 6, 7, Invar(-1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), -(2*sqrt((S(ss1)*(1 + S(ss1)))/(Power(1 + 2*ISO(ii1),2)*Power(1 + 2*S(ss1),2))))},
+{ 7, 7, Invar(1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), -((4*sqrt((ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1)))/Power(1 + 2*S(ss1),2)))/(1 + 2*ISO(ii1)))},
+{ 8, 6, Invar(-1 + ii1, 1 + ss1, -p1), Invar(-2 + ii1, ss1, -p1), -(1/(-1 - 2*S(ss1)))},
+{ 8, 7, Invar(-1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), -(-(1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))))},
+{ 8, 8, Invar(-1 + ii1, 1 + ss1, -p1), Invar(-2 + ii1, 2 + ss1, -p1), -1},
+{ 8, 9, Invar(-1 + ii1, 1 + ss1, -p1), Invar(ii1, 2 + ss1, -p1), -(1/(1 + 2*ISO(ii1)))},
+{ 9, 7, Invar(1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), -((-2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 9, 9, Invar(1 + ii1, 1 + ss1, -p1), Invar(ii1, 2 + ss1, -p1), -((2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1)))},
+{ 10, 10, Invar(-1 + ii1, -1 + ss1, p1), Invar(-2 + ii1, ss1, p1), -((2*sqrt(S(ss1)*(1 + S(ss1))))/(1 + 2*S(ss1)))},
+{ 10, 11, Invar(-1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), -(2*sqrt((S(ss1)*(1 + S(ss1)))/(Power(1 + 2*ISO(ii1),2)*Power(1 + 2*S(ss1),2))))},
+{ 11, 11, Invar(1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), -((4*sqrt((ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1)))/Power(1 + 2*S(ss1),2)))/(1 + 2*ISO(ii1)))},
+{ 12, 10, Invar(-1 + ii1, 1 + ss1, p1), Invar(-2 + ii1, ss1, p1), -(1/(-1 - 2*S(ss1)))},
+{ 12, 11, Invar(-1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), -(-(1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))))},
+{ 12, 12, Invar(-1 + ii1, 1 + ss1, p1), Invar(-2 + ii1, 2 + ss1, p1), -1},
+{ 12, 13, Invar(-1 + ii1, 1 + ss1, p1), Invar(ii1, 2 + ss1, p1), -(1/(1 + 2*ISO(ii1)))},
+{ 13, 11, Invar(1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), -((-2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 13, 13, Invar(1 + ii1, 1 + ss1, p1), Invar(ii1, 2 + ss1, p1), -((2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1)))},
 { 14, 14, Invar(-2 + ii1, ss1, p1), Invar(-3 + ii1, 1 + ss1, p1), sqrt(1/(-1 + 2*ISO(ii1)))*sqrt(-1 + 2*ISO(ii1))},
 { 14, 15, Invar(-2 + ii1, ss1, p1), Invar(-1 + ii1, 1 + ss1, p1), sqrt(1/(-ISO(ii1) + 2*Power(ISO(ii1),2)))*sqrt(1 - 2/(1 + 2*ISO(ii1)))},
 { 15, 15, Invar(ii1, ss1, p1), Invar(-1 + ii1, 1 + ss1, p1), (ISO(ii1)*(-1 + 2*ISO(ii1)) + sqrt(-1 + 4*Power(ISO(ii1),2))*sqrt(1 - 2/(1 + 2*ISO(ii1))))/sqrt(ISO(ii1)*(1 + ISO(ii1))*(-1 + 4*Power(ISO(ii1),2)))},
diff --git a/c++/symmetry/coefnew/isolr/isolr-2ch-doubletpm.dat b/c++/symmetry/coefnew/isolr/isolr-2ch-doubletpm.dat
index af0cb79..968c610 100644
--- a/c++/symmetry/coefnew/isolr/isolr-2ch-doubletpm.dat
+++ b/c++/symmetry/coefnew/isolr/isolr-2ch-doubletpm.dat
@@ -5,24 +5,24 @@
 { 4, 4, Invar(ii1, ss1, -p1), Invar(1 + ii1, -1 + ss1, -p1), (S(ss1)*(-1 + 2*S(ss1)) + sqrt(-1 + 4*Power(S(ss1),2))*sqrt(1 - 2/(1 + 2*S(ss1))))/sqrt(S(ss1)*(1 + S(ss1))*(-1 + 4*Power(S(ss1),2)))},
 { 4, 5, Invar(ii1, ss1, -p1), Invar(1 + ii1, 1 + ss1, -p1), 1/sqrt((1 + S(ss1))*(1 + 2*S(ss1)))},
 { 5, 5, Invar(ii1, 2 + ss1, -p1), Invar(1 + ii1, 1 + ss1, -p1), S(ss1)/sqrt((S(ss1)*(1 + S(ss1))*(1 + 2*S(ss1)))/(3 + 2*S(ss1)))},
-{ 6, 6, Invar(-1 + ii1, -1 + ss1, -p1), Invar(ii1, -2 + ss1, -p1), (2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1))},
-{ 6, 8, Invar(-1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), (2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 7, 6, Invar(1 + ii1, -1 + ss1, -p1), Invar(ii1, -2 + ss1, -p1), 1/(-1 - 2*ISO(ii1))},
-{ 7, 7, Invar(1 + ii1, -1 + ss1, -p1), Invar(2 + ii1, -2 + ss1, -p1), 1},
-{ 7, 8, Invar(1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), -(1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
-{ 7, 9, Invar(1 + ii1, -1 + ss1, -p1), Invar(2 + ii1, ss1, -p1), 1/(1 + 2*S(ss1))},
-{ 8, 8, Invar(-1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), (4*sqrt((ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1))*(1 + 2*S(ss1)))/Power(1 + 2*ISO(ii1),2)))/Power(1 + 2*S(ss1),1.5)},
-{ 9, 8, Invar(1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), (-2*sqrt(S(ss1) + Power(S(ss1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 9, 9, Invar(1 + ii1, 1 + ss1, -p1), Invar(2 + ii1, ss1, -p1), (2*(1 + S(ss1))*(2*sqrt((S(ss1)*(1 + 2*S(ss1)))/(3 + 5*ISO(ii1) + 2*Power(ISO(ii1),2))) + sqrt((Power(1 + 2*ISO(ii1),2)*S(ss1)*(1 + 2*S(ss1)))/(3 + 5*ISO(ii1) + 2*Power(ISO(ii1),2)))))/(sqrt(((3 + 2*ISO(ii1))*(1 + S(ss1)))/(1 + ISO(ii1)))*Power(1 + 2*S(ss1),1.5))},
-{ 10, 10, Invar(-1 + ii1, -1 + ss1, p1), Invar(ii1, -2 + ss1, p1), (2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1))},
-{ 10, 12, Invar(-1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), (2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 11, 10, Invar(1 + ii1, -1 + ss1, p1), Invar(ii1, -2 + ss1, p1), 1/(-1 - 2*ISO(ii1))},
-{ 11, 11, Invar(1 + ii1, -1 + ss1, p1), Invar(2 + ii1, -2 + ss1, p1), 1},
-{ 11, 12, Invar(1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), -(1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
-{ 11, 13, Invar(1 + ii1, -1 + ss1, p1), Invar(2 + ii1, ss1, p1), 1/(1 + 2*S(ss1))},
-{ 12, 12, Invar(-1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), (4*sqrt((ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1))*(1 + 2*S(ss1)))/Power(1 + 2*ISO(ii1),2)))/Power(1 + 2*S(ss1),1.5)},
-{ 13, 12, Invar(1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), (-2*sqrt(S(ss1) + Power(S(ss1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 13, 13, Invar(1 + ii1, 1 + ss1, p1), Invar(2 + ii1, ss1, p1), (2*(1 + S(ss1))*(2*sqrt((S(ss1)*(1 + 2*S(ss1)))/(3 + 5*ISO(ii1) + 2*Power(ISO(ii1),2))) + sqrt((Power(1 + 2*ISO(ii1),2)*S(ss1)*(1 + 2*S(ss1)))/(3 + 5*ISO(ii1) + 2*Power(ISO(ii1),2)))))/(sqrt(((3 + 2*ISO(ii1))*(1 + S(ss1)))/(1 + ISO(ii1)))*Power(1 + 2*S(ss1),1.5))},
+{ 6, 6, Invar(-1 + ii1, -1 + ss1, -p1), Invar(ii1, -2 + ss1, -p1), -((2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1)))},
+{ 6, 8, Invar(-1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), -((2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 7, 6, Invar(1 + ii1, -1 + ss1, -p1), Invar(ii1, -2 + ss1, -p1), -(1/(-1 - 2*ISO(ii1)))},
+{ 7, 7, Invar(1 + ii1, -1 + ss1, -p1), Invar(2 + ii1, -2 + ss1, -p1), -1},
+{ 7, 8, Invar(1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), -(-(1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))))},
+{ 7, 9, Invar(1 + ii1, -1 + ss1, -p1), Invar(2 + ii1, ss1, -p1), -(1/(1 + 2*S(ss1)))},
+{ 8, 8, Invar(-1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), -((4*sqrt((ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1))*(1 + 2*S(ss1)))/Power(1 + 2*ISO(ii1),2)))/Power(1 + 2*S(ss1),1.5))},
+{ 9, 8, Invar(1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), -((-2*sqrt(S(ss1) + Power(S(ss1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 9, 9, Invar(1 + ii1, 1 + ss1, -p1), Invar(2 + ii1, ss1, -p1), -((2*(1 + S(ss1))*(2*sqrt((S(ss1)*(1 + 2*S(ss1)))/(3 + 5*ISO(ii1) + 2*Power(ISO(ii1),2))) + sqrt((Power(1 + 2*ISO(ii1),2)*S(ss1)*(1 + 2*S(ss1)))/(3 + 5*ISO(ii1) + 2*Power(ISO(ii1),2)))))/(sqrt(((3 + 2*ISO(ii1))*(1 + S(ss1)))/(1 + ISO(ii1)))*Power(1 + 2*S(ss1),1.5)))},
+{ 10, 10, Invar(-1 + ii1, -1 + ss1, p1), Invar(ii1, -2 + ss1, p1), -((2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1)))},
+{ 10, 12, Invar(-1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), -((2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 11, 10, Invar(1 + ii1, -1 + ss1, p1), Invar(ii1, -2 + ss1, p1), -(1/(-1 - 2*ISO(ii1)))},
+{ 11, 11, Invar(1 + ii1, -1 + ss1, p1), Invar(2 + ii1, -2 + ss1, p1), -1},
+{ 11, 12, Invar(1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), -(-(1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))))},
+{ 11, 13, Invar(1 + ii1, -1 + ss1, p1), Invar(2 + ii1, ss1, p1), -(1/(1 + 2*S(ss1)))},
+{ 12, 12, Invar(-1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), -((4*sqrt((ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1))*(1 + 2*S(ss1)))/Power(1 + 2*ISO(ii1),2)))/Power(1 + 2*S(ss1),1.5))},
+{ 13, 12, Invar(1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), -((-2*sqrt(S(ss1) + Power(S(ss1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 13, 13, Invar(1 + ii1, 1 + ss1, p1), Invar(2 + ii1, ss1, p1), -((2*(1 + S(ss1))*(2*sqrt((S(ss1)*(1 + 2*S(ss1)))/(3 + 5*ISO(ii1) + 2*Power(ISO(ii1),2))) + sqrt((Power(1 + 2*ISO(ii1),2)*S(ss1)*(1 + 2*S(ss1)))/(3 + 5*ISO(ii1) + 2*Power(ISO(ii1),2)))))/(sqrt(((3 + 2*ISO(ii1))*(1 + S(ss1)))/(1 + ISO(ii1)))*Power(1 + 2*S(ss1),1.5)))},
 { 14, 14, Invar(-2 + ii1, ss1, p1), Invar(-1 + ii1, -1 + ss1, p1), (-1 + 2*ISO(ii1))*sqrt(-((1 + ISO(ii1))/(ISO(ii1) - 4*Power(ISO(ii1),3))))},
 { 15, 14, Invar(ii1, ss1, p1), Invar(-1 + ii1, -1 + ss1, p1), -(1/sqrt(ISO(ii1)*(1 + 2*ISO(ii1))))},
 { 15, 15, Invar(ii1, ss1, p1), Invar(1 + ii1, -1 + ss1, p1), (ISO(ii1)*(3 + 2*ISO(ii1)))/sqrt(ISO(ii1)*(1 + ISO(ii1))*(3 + 4*ISO(ii1)*(2 + ISO(ii1))))},
diff --git a/c++/symmetry/coefnew/isolr/isolr-2ch-doubletpp.dat b/c++/symmetry/coefnew/isolr/isolr-2ch-doubletpp.dat
index 509c6a4..d02f55d 100644
--- a/c++/symmetry/coefnew/isolr/isolr-2ch-doubletpp.dat
+++ b/c++/symmetry/coefnew/isolr/isolr-2ch-doubletpp.dat
@@ -5,24 +5,24 @@
 { 4, 4, Invar(ii1, ss1, -p1), Invar(1 + ii1, 1 + ss1, -p1), (S(ss1)*(3 + 2*S(ss1)))/sqrt(S(ss1)*(1 + S(ss1))*(3 + 4*S(ss1)*(2 + S(ss1))))},
 { 5, 4, Invar(ii1, 2 + ss1, -p1), Invar(1 + ii1, 1 + ss1, -p1), -(1/sqrt((1 + S(ss1))*(1 + 2*S(ss1))))},
 { 5, 5, Invar(ii1, 2 + ss1, -p1), Invar(1 + ii1, 3 + ss1, -p1), 1},
-{ 6, 6, Invar(-1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), 4*sqrt((ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1)))/(Power(1 + 2*ISO(ii1),2)*Power(1 + 2*S(ss1),2)))},
-{ 7, 6, Invar(1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), (-2*sqrt(S(ss1) + Power(S(ss1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 7, 7, Invar(1 + ii1, -1 + ss1, -p1), Invar(2 + ii1, ss1, -p1), (2*sqrt(S(ss1)*(1 + S(ss1))))/(1 + 2*S(ss1))},
-{ 8, 6, Invar(-1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), (-2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 8, 8, Invar(-1 + ii1, 1 + ss1, -p1), Invar(ii1, 2 + ss1, -p1), (2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1))},
-{ 9, 6, Invar(1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), 1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 9, 7, Invar(1 + ii1, 1 + ss1, -p1), Invar(2 + ii1, ss1, -p1), 1/(-1 - 2*S(ss1))},
-{ 9, 8, Invar(1 + ii1, 1 + ss1, -p1), Invar(ii1, 2 + ss1, -p1), 1/(-1 - 2*ISO(ii1))},
-{ 9, 9, Invar(1 + ii1, 1 + ss1, -p1), Invar(2 + ii1, 2 + ss1, -p1), 1},
-{ 10, 10, Invar(-1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), 4*sqrt((ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1)))/(Power(1 + 2*ISO(ii1),2)*Power(1 + 2*S(ss1),2)))},
-{ 11, 10, Invar(1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), (-2*sqrt(S(ss1) + Power(S(ss1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 11, 11, Invar(1 + ii1, -1 + ss1, p1), Invar(2 + ii1, ss1, p1), (2*sqrt(S(ss1)*(1 + S(ss1))))/(1 + 2*S(ss1))},
-{ 12, 10, Invar(-1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), (-2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 12, 12, Invar(-1 + ii1, 1 + ss1, p1), Invar(ii1, 2 + ss1, p1), (2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1))},
-{ 13, 10, Invar(1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), 1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1))},
-{ 13, 11, Invar(1 + ii1, 1 + ss1, p1), Invar(2 + ii1, ss1, p1), 1/(-1 - 2*S(ss1))},
-{ 13, 12, Invar(1 + ii1, 1 + ss1, p1), Invar(ii1, 2 + ss1, p1), 1/(-1 - 2*ISO(ii1))},
-{ 13, 13, Invar(1 + ii1, 1 + ss1, p1), Invar(2 + ii1, 2 + ss1, p1), 1},
+{ 6, 6, Invar(-1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), -(4*sqrt((ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1)))/(Power(1 + 2*ISO(ii1),2)*Power(1 + 2*S(ss1),2))))},
+{ 7, 6, Invar(1 + ii1, -1 + ss1, -p1), Invar(ii1, ss1, -p1), -((-2*sqrt(S(ss1) + Power(S(ss1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 7, 7, Invar(1 + ii1, -1 + ss1, -p1), Invar(2 + ii1, ss1, -p1), -((2*sqrt(S(ss1)*(1 + S(ss1))))/(1 + 2*S(ss1)))},
+{ 8, 6, Invar(-1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), -((-2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 8, 8, Invar(-1 + ii1, 1 + ss1, -p1), Invar(ii1, 2 + ss1, -p1), -((2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1)))},
+{ 9, 6, Invar(1 + ii1, 1 + ss1, -p1), Invar(ii1, ss1, -p1), -(1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 9, 7, Invar(1 + ii1, 1 + ss1, -p1), Invar(2 + ii1, ss1, -p1), -(1/(-1 - 2*S(ss1)))},
+{ 9, 8, Invar(1 + ii1, 1 + ss1, -p1), Invar(ii1, 2 + ss1, -p1), -(1/(-1 - 2*ISO(ii1)))},
+{ 9, 9, Invar(1 + ii1, 1 + ss1, -p1), Invar(2 + ii1, 2 + ss1, -p1), -1},
+{ 10, 10, Invar(-1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), -(4*sqrt((ISO(ii1)*(1 + ISO(ii1))*S(ss1)*(1 + S(ss1)))/(Power(1 + 2*ISO(ii1),2)*Power(1 + 2*S(ss1),2))))},
+{ 11, 10, Invar(1 + ii1, -1 + ss1, p1), Invar(ii1, ss1, p1), -((-2*sqrt(S(ss1) + Power(S(ss1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 11, 11, Invar(1 + ii1, -1 + ss1, p1), Invar(2 + ii1, ss1, p1), -((2*sqrt(S(ss1)*(1 + S(ss1))))/(1 + 2*S(ss1)))},
+{ 12, 10, Invar(-1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), -((-2*sqrt(ISO(ii1) + Power(ISO(ii1),2)))/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 12, 12, Invar(-1 + ii1, 1 + ss1, p1), Invar(ii1, 2 + ss1, p1), -((2*sqrt(ISO(ii1)*(1 + ISO(ii1))))/(1 + 2*ISO(ii1)))},
+{ 13, 10, Invar(1 + ii1, 1 + ss1, p1), Invar(ii1, ss1, p1), -(1/(1 + 2*ISO(ii1) + 2*S(ss1) + 4*ISO(ii1)*S(ss1)))},
+{ 13, 11, Invar(1 + ii1, 1 + ss1, p1), Invar(2 + ii1, ss1, p1), -(1/(-1 - 2*S(ss1)))},
+{ 13, 12, Invar(1 + ii1, 1 + ss1, p1), Invar(ii1, 2 + ss1, p1), -(1/(-1 - 2*ISO(ii1)))},
+{ 13, 13, Invar(1 + ii1, 1 + ss1, p1), Invar(2 + ii1, 2 + ss1, p1), -1},
 { 14, 14, Invar(-2 + ii1, ss1, p1), Invar(-1 + ii1, 1 + ss1, p1), (-1 + 2*ISO(ii1))*sqrt(-((1 + ISO(ii1))/(ISO(ii1) - 4*Power(ISO(ii1),3))))},
 { 15, 14, Invar(ii1, ss1, p1), Invar(-1 + ii1, 1 + ss1, p1), -(1/sqrt(ISO(ii1)*(1 + 2*ISO(ii1))))},
 { 15, 15, Invar(ii1, ss1, p1), Invar(1 + ii1, 1 + ss1, p1), (ISO(ii1)*(3 + 2*ISO(ii1)))/sqrt(ISO(ii1)*(1 + ISO(ii1))*(3 + 4*ISO(ii1)*(2 + ISO(ii1))))},
-- 
2.43.0


From fef11dd73669f025fe6ec76cffb97ecd2698cfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:37 +0000
Subject: [PATCH 25/49] fix: P doublet recursion missed the sign of
 odd-electron site states

---
 c++/symmetry/coefnew/p/p-1ch-doublet.dat |  4 ++--
 c++/symmetry/coefnew/p/p-2ch-doublet.dat | 16 ++++++++--------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/c++/symmetry/coefnew/p/p-1ch-doublet.dat b/c++/symmetry/coefnew/p/p-1ch-doublet.dat
index b3d578f..978f1ee 100644
--- a/c++/symmetry/coefnew/p/p-1ch-doublet.dat
+++ b/c++/symmetry/coefnew/p/p-1ch-doublet.dat
@@ -1,4 +1,4 @@
-{ 1, 1, Invar(-p1), Invar(p1), 1},
-{ 2, 2, Invar(-p1), Invar(p1), 1},
+{ 1, 1, Invar(-p1), Invar(p1), -1},
+{ 2, 2, Invar(-p1), Invar(p1), -1},
 { 3, 3, Invar(p1), Invar(-p1), 1},
 { 4, 4, Invar(p1), Invar(-p1), 1},
diff --git a/c++/symmetry/coefnew/p/p-2ch-doublet.dat b/c++/symmetry/coefnew/p/p-2ch-doublet.dat
index 0c6d08c..4918748 100644
--- a/c++/symmetry/coefnew/p/p-2ch-doublet.dat
+++ b/c++/symmetry/coefnew/p/p-2ch-doublet.dat
@@ -1,11 +1,11 @@
-{ 1, 1, Invar(-p1), Invar(p1), 1},
-{ 2, 2, Invar(-p1), Invar(p1), 1},
-{ 3, 3, Invar(-p1), Invar(p1), 1},
-{ 4, 4, Invar(-p1), Invar(p1), 1},
-{ 5, 5, Invar(-p1), Invar(p1), 1},
-{ 6, 6, Invar(-p1), Invar(p1), 1},
-{ 7, 7, Invar(-p1), Invar(p1), 1},
-{ 8, 8, Invar(-p1), Invar(p1), 1},
+{ 1, 1, Invar(-p1), Invar(p1), -1},
+{ 2, 2, Invar(-p1), Invar(p1), -1},
+{ 3, 3, Invar(-p1), Invar(p1), -1},
+{ 4, 4, Invar(-p1), Invar(p1), -1},
+{ 5, 5, Invar(-p1), Invar(p1), -1},
+{ 6, 6, Invar(-p1), Invar(p1), -1},
+{ 7, 7, Invar(-p1), Invar(p1), -1},
+{ 8, 8, Invar(-p1), Invar(p1), -1},
 { 9, 9, Invar(p1), Invar(-p1), 1},
 { 10, 10, Invar(p1), Invar(-p1), 1},
 { 11, 11, Invar(p1), Invar(-p1), 1},
-- 
2.43.0


From 413a1facb64b22e3851fe9dfdc18c92842caa926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:37 +0000
Subject: [PATCH 26/49] fix: U1 exchanged the spin of neighbouring sites in
 non-polarized runs

---
 c++/symmetry/sym-U1-impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/symmetry/sym-U1-impl.hpp b/c++/symmetry/sym-U1-impl.hpp
index 7543f71..6a588b6 100644
--- a/c++/symmetry/sym-U1-impl.hpp
+++ b/c++/symmetry/sym-U1-impl.hpp
@@ -150,8 +150,8 @@ void SymmetryU1<SC>::make_matrix_pol2x2(Matrix &h, const Step &step, const Subsp
 #undef OFFDIAG_DO
 #undef OFFDIAG_UP
 
-#define OFFDIAG_DO(i, j, ch, factor) offdiag_function(step, i, j, ch, 0, t_matel(factor) * coef.xi(step.N(), ch), h, qq, In, opch)
-#define OFFDIAG_UP(i, j, ch, factor) offdiag_function(step, i, j, ch, 1, t_matel(factor) * coef.xi(step.N(), ch), h, qq, In, opch)
+#define OFFDIAG_DO(i, j, ch, factor) offdiag_function(step, i, j, ch, 1, t_matel(factor) * coef.xi(step.N(), ch), h, qq, In, opch)
+#define OFFDIAG_UP(i, j, ch, factor) offdiag_function(step, i, j, ch, 0, t_matel(factor) * coef.xi(step.N(), ch), h, qq, In, opch)
 
 template<typename SC>
 void SymmetryU1<SC>::make_matrix_nonpolarized(Matrix &h, const Step &step, const SubspaceDimensions &qq, const Invar &I, const InvarVec &In, const Opch<SC> &opch, const Coef<SC> &coef) const {
-- 
2.43.0


From f342c6721c3d0843fdd11f633cf5da8eb9dd5a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:36 +0000
Subject: [PATCH 27/49] fix: SL global operators N1, N2, N3 counted each of
 three channels three times

---
 c++/symmetry/coefnew/sl/sl-3ch-N1.dat | 8 --------
 c++/symmetry/coefnew/sl/sl-3ch-N2.dat | 8 --------
 c++/symmetry/coefnew/sl/sl-3ch-N3.dat | 8 --------
 3 files changed, 24 deletions(-)

diff --git a/c++/symmetry/coefnew/sl/sl-3ch-N1.dat b/c++/symmetry/coefnew/sl/sl-3ch-N1.dat
index fca1387..415bad3 100644
--- a/c++/symmetry/coefnew/sl/sl-3ch-N1.dat
+++ b/c++/symmetry/coefnew/sl/sl-3ch-N1.dat
@@ -2,11 +2,3 @@ N1(1, 1, 0, -1);
 N1(2, 2, 0, -1);
 N1(3, 3, 0, -1);
 N1(5, 5, 0, -1);
-N1(1, 1, 1, -1);
-N1(2, 2, 1, -1);
-N1(3, 3, 1, -1);
-N1(5, 5, 1, -1);
-N1(1, 1, 2, -1);
-N1(2, 2, 2, -1);
-N1(3, 3, 2, -1);
-N1(5, 5, 2, -1);
diff --git a/c++/symmetry/coefnew/sl/sl-3ch-N2.dat b/c++/symmetry/coefnew/sl/sl-3ch-N2.dat
index aee6d05..bff46ed 100644
--- a/c++/symmetry/coefnew/sl/sl-3ch-N2.dat
+++ b/c++/symmetry/coefnew/sl/sl-3ch-N2.dat
@@ -2,11 +2,3 @@ N2(1, 1, 0, -1);
 N2(2, 2, 0, -1);
 N2(4, 4, 0, -1);
 N2(6, 6, 0, -1);
-N2(1, 1, 1, -1);
-N2(2, 2, 1, -1);
-N2(4, 4, 1, -1);
-N2(6, 6, 1, -1);
-N2(1, 1, 2, -1);
-N2(2, 2, 2, -1);
-N2(4, 4, 2, -1);
-N2(6, 6, 2, -1);
diff --git a/c++/symmetry/coefnew/sl/sl-3ch-N3.dat b/c++/symmetry/coefnew/sl/sl-3ch-N3.dat
index 881f742..a7739e6 100644
--- a/c++/symmetry/coefnew/sl/sl-3ch-N3.dat
+++ b/c++/symmetry/coefnew/sl/sl-3ch-N3.dat
@@ -2,11 +2,3 @@ N3(1, 1, 0, -1);
 N3(3, 3, 0, -1);
 N3(4, 4, 0, -1);
 N3(7, 7, 0, -1);
-N3(1, 1, 1, -1);
-N3(3, 3, 1, -1);
-N3(4, 4, 1, -1);
-N3(7, 7, 1, -1);
-N3(1, 1, 2, -1);
-N3(3, 3, 2, -1);
-N3(4, 4, 2, -1);
-N3(7, 7, 2, -1);
-- 
2.43.0


From 5d58c310d71d25ff5a1aa5feadbc947e02e9df5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:04 +0000
Subject: [PATCH 28/49] fix: QSZTZ triplet operators carried the quantum
 numbers (0,3,0)

---
 c++/symmetry/nrg-recalc-QSZTZ.hpp    | 12 ++++++------
 c++/symmetry/nrg-recalc-QSZTZ.hpp.m4 |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/c++/symmetry/nrg-recalc-QSZTZ.hpp b/c++/symmetry/nrg-recalc-QSZTZ.hpp
index 7af59fb..7b5ee5b 100644
--- a/c++/symmetry/nrg-recalc-QSZTZ.hpp
+++ b/c++/symmetry/nrg-recalc-QSZTZ.hpp
@@ -220,39 +220,39 @@ MatrixElements<SC> SymmetryQSZTZ<SC>::recalc_triplet(const DiagInfo<SC> &diag, c
 
     Ip = Invar(q1, ssz1, tz1);
     {
-  nrglog('f', "RECALC(fn=" << "qsztz/qsztz-triplets.dat" << ", Iop=" << Invar(0, 3, 0) << ")");
+  nrglog('f', "RECALC(fn=" << "qsztz/qsztz-triplets.dat" << ", Iop=" << Invar(0, 0, 0) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "qsztz/qsztz-triplets.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(0, 3, 0));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(0, 0, 0));
     if (cn) cnew[II] = *cn;
   }
 };
 
     Ip = Invar(q1, ssz1 + 2, tz1);
     {
-  nrglog('f', "RECALC(fn=" << "qsztz/qsztz-tripletp.dat" << ", Iop=" << Invar(0, 3, 0) << ")");
+  nrglog('f', "RECALC(fn=" << "qsztz/qsztz-tripletp.dat" << ", Iop=" << Invar(0, -2, 0) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "qsztz/qsztz-tripletp.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(0, 3, 0));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(0, -2, 0));
     if (cn) cnew[II] = *cn;
   }
 };
 
     Ip = Invar(q1, ssz1 - 2, tz1);
     {
-  nrglog('f', "RECALC(fn=" << "qsztz/qsztz-tripletm.dat" << ", Iop=" << Invar(0, 3, 0) << ")");
+  nrglog('f', "RECALC(fn=" << "qsztz/qsztz-tripletm.dat" << ", Iop=" << Invar(0, +2, 0) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "qsztz/qsztz-tripletm.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(0, 3, 0));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(0, +2, 0));
     if (cn) cnew[II] = *cn;
   }
 };
diff --git a/c++/symmetry/nrg-recalc-QSZTZ.hpp.m4 b/c++/symmetry/nrg-recalc-QSZTZ.hpp.m4
index a2a3f9b..0568c05 100644
--- a/c++/symmetry/nrg-recalc-QSZTZ.hpp.m4
+++ b/c++/symmetry/nrg-recalc-QSZTZ.hpp.m4
@@ -85,13 +85,13 @@ MatrixElements<SC> SymmetryQSZTZ<SC>::recalc_triplet(const DiagInfo<SC> &diag, c
     Invar Ip;
 
     Ip = Invar(q1, ssz1, tz1);
-    RECALC_TAB("qsztz/qsztz-triplets.dat", Invar(0, 3, 0));
+    RECALC_TAB("qsztz/qsztz-triplets.dat", Invar(0, 0, 0));
 
     Ip = Invar(q1, ssz1 + 2, tz1);
-    RECALC_TAB("qsztz/qsztz-tripletp.dat", Invar(0, 3, 0));
+    RECALC_TAB("qsztz/qsztz-tripletp.dat", Invar(0, -2, 0));
 
     Ip = Invar(q1, ssz1 - 2, tz1);
-    RECALC_TAB("qsztz/qsztz-tripletm.dat", Invar(0, 3, 0));
+    RECALC_TAB("qsztz/qsztz-tripletm.dat", Invar(0, +2, 0));
   }
   return cnew;
 }
-- 
2.43.0


From 432e04b68f42761c4c672e9fb4265c10990cc050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:04 +0000
Subject: [PATCH 29/49] fix: SPSU2T doublet operators had three quantum numbers
 instead of two

---
 c++/symmetry/nrg-recalc-SPSU2T.hpp    | 24 ++++++++++++------------
 c++/symmetry/nrg-recalc-SPSU2T.hpp.m4 | 12 ++++++------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/c++/symmetry/nrg-recalc-SPSU2T.hpp b/c++/symmetry/nrg-recalc-SPSU2T.hpp
index 2818c28..ad3cf4c 100644
--- a/c++/symmetry/nrg-recalc-SPSU2T.hpp
+++ b/c++/symmetry/nrg-recalc-SPSU2T.hpp
@@ -41,78 +41,78 @@ MatrixElements<SC> SymmetrySPSU2T<SC>::recalc_doublet(const DiagInfo<SC> &diag,
 
     Ip = Invar(ss1 + 1, t1 - 1);
     {
-  nrglog('f', "RECALC(fn=" << "spsu2t/spsu2t-doubletp-1.dat" << ", Iop=" << Invar(1, 2, 1) << ")");
+  nrglog('f', "RECALC(fn=" << "spsu2t/spsu2t-doubletp-1.dat" << ", Iop=" << Invar(2, 1) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "spsu2t/spsu2t-doubletp-1.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(1, 2, 1));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(2, 1));
     if (cn) cnew[II] = *cn;
   }
 };
 
     Ip = Invar(ss1 - 1, t1 - 1);
     {
-  nrglog('f', "RECALC(fn=" << "spsu2t/spsu2t-doubletm-1.dat" << ", Iop=" << Invar(1, 2, 1) << ")");
+  nrglog('f', "RECALC(fn=" << "spsu2t/spsu2t-doubletm-1.dat" << ", Iop=" << Invar(2, 1) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "spsu2t/spsu2t-doubletm-1.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(1, 2, 1));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(2, 1));
     if (cn) cnew[II] = *cn;
   }
 };
 
     Ip = Invar(ss1 + 1, t1);
     {
-  nrglog('f', "RECALC(fn=" << "spsu2t/spsu2t-doubletp0.dat" << ", Iop=" << Invar(1, 2, 1) << ")");
+  nrglog('f', "RECALC(fn=" << "spsu2t/spsu2t-doubletp0.dat" << ", Iop=" << Invar(2, 1) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "spsu2t/spsu2t-doubletp0.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(1, 2, 1));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(2, 1));
     if (cn) cnew[II] = *cn;
   }
 };
 
     Ip = Invar(ss1 - 1, t1);
     {
-  nrglog('f', "RECALC(fn=" << "spsu2t/spsu2t-doubletm0.dat" << ", Iop=" << Invar(1, 2, 1) << ")");
+  nrglog('f', "RECALC(fn=" << "spsu2t/spsu2t-doubletm0.dat" << ", Iop=" << Invar(2, 1) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "spsu2t/spsu2t-doubletm0.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(1, 2, 1));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(2, 1));
     if (cn) cnew[II] = *cn;
   }
 };
 
     Ip = Invar(ss1 + 1, t1 + 1);
     {
-  nrglog('f', "RECALC(fn=" << "spsu2t/spsu2t-doubletp+1.dat" << ", Iop=" << Invar(1, 2, 1) << ")");
+  nrglog('f', "RECALC(fn=" << "spsu2t/spsu2t-doubletp+1.dat" << ", Iop=" << Invar(2, 1) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "spsu2t/spsu2t-doubletp+1.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(1, 2, 1));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(2, 1));
     if (cn) cnew[II] = *cn;
   }
 };
 
     Ip = Invar(ss1 - 1, t1 + 1);
     {
-  nrglog('f', "RECALC(fn=" << "spsu2t/spsu2t-doubletm+1.dat" << ", Iop=" << Invar(1, 2, 1) << ")");
+  nrglog('f', "RECALC(fn=" << "spsu2t/spsu2t-doubletm+1.dat" << ", Iop=" << Invar(2, 1) << ")");
   auto II = Twoinvar(I1, Ip);
   if (this->have_stored_subspaces(diag, I1, Ip)) {
     std::initializer_list<Recalc<SC>> recalc_table = {
 #include "spsu2t/spsu2t-doubletm+1.dat"
     };
-    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(1, 2, 1));
+    auto cn = this->recalc_general(diag, substruct, cold, I1, Ip, recalc_table, Invar(2, 1));
     if (cn) cnew[II] = *cn;
   }
 };
diff --git a/c++/symmetry/nrg-recalc-SPSU2T.hpp.m4 b/c++/symmetry/nrg-recalc-SPSU2T.hpp.m4
index a9d3c37..aeaad96 100644
--- a/c++/symmetry/nrg-recalc-SPSU2T.hpp.m4
+++ b/c++/symmetry/nrg-recalc-SPSU2T.hpp.m4
@@ -20,22 +20,22 @@ MatrixElements<SC> SymmetrySPSU2T<SC>::recalc_doublet(const DiagInfo<SC> &diag,
     // Two different lengths: D_3CH_a and D_3CH_b
 
     Ip = Invar(ss1 + 1, t1 - 1);
-    RECALC_TAB("spsu2t/spsu2t-doubletp-1.dat", Invar(1, 2, 1));
+    RECALC_TAB("spsu2t/spsu2t-doubletp-1.dat", Invar(2, 1));
 
     Ip = Invar(ss1 - 1, t1 - 1);
-    RECALC_TAB("spsu2t/spsu2t-doubletm-1.dat", Invar(1, 2, 1));
+    RECALC_TAB("spsu2t/spsu2t-doubletm-1.dat", Invar(2, 1));
 
     Ip = Invar(ss1 + 1, t1);
-    RECALC_TAB("spsu2t/spsu2t-doubletp0.dat", Invar(1, 2, 1));
+    RECALC_TAB("spsu2t/spsu2t-doubletp0.dat", Invar(2, 1));
 
     Ip = Invar(ss1 - 1, t1);
-    RECALC_TAB("spsu2t/spsu2t-doubletm0.dat", Invar(1, 2, 1));
+    RECALC_TAB("spsu2t/spsu2t-doubletm0.dat", Invar(2, 1));
 
     Ip = Invar(ss1 + 1, t1 + 1);
-    RECALC_TAB("spsu2t/spsu2t-doubletp+1.dat", Invar(1, 2, 1));
+    RECALC_TAB("spsu2t/spsu2t-doubletp+1.dat", Invar(2, 1));
 
     Ip = Invar(ss1 - 1, t1 + 1);
-    RECALC_TAB("spsu2t/spsu2t-doubletm+1.dat", Invar(1, 2, 1));
+    RECALC_TAB("spsu2t/spsu2t-doubletm+1.dat", Invar(2, 1));
   }
   return cnew;
 }
-- 
2.43.0


From e72e632b081a9c14f0f1da49b005dd662c3e0783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:04 +0000
Subject: [PATCH 30/49] fix: spin and orbital susceptibility factors of QST and
 SPSU2T missed the other multiplicity

---
 c++/symmetry/sym-QST-impl.hpp    | 6 ++++--
 c++/symmetry/sym-SPSU2T-impl.hpp | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/c++/symmetry/sym-QST-impl.hpp b/c++/symmetry/sym-QST-impl.hpp
index e2bb756..3a39ddc 100644
--- a/c++/symmetry/sym-QST-impl.hpp
+++ b/c++/symmetry/sym-QST-impl.hpp
@@ -46,7 +46,8 @@ class SymmetryQST : public Symmetry<SC> {
     const int ssp = Ip.get("SS");
     const int ss1 = I1.get("SS");
     my_assert((std::abs(ss1 - ssp) == 2 || ss1 == ssp));
-    return switch3(ss1, ssp + 2, 1. + (ssp - 1) / 3., ssp, ssp / 3., ssp - 2, (-2. + ssp) / 3.);
+    const int tp = Ip.get("T"); // orbital multiplicity
+    return (2 * tp + 1) * switch3(ss1, ssp + 2, 1. + (ssp - 1) / 3., ssp, ssp / 3., ssp - 2, (-2. + ssp) / 3.);
   }
 
   double dynamic_orb_susceptibility_factor(const Invar &Ip, const Invar &I1) const override {
@@ -57,7 +58,8 @@ class SymmetryQST : public Symmetry<SC> {
     int ttp        = 2 * tp + 1;
     int tt1        = 2 * t1 + 1;
     my_assert((std::abs(tt1 - ttp) == 2 || tt1 == ttp));
-    return switch3(tt1, ttp + 2, 1. + (ttp - 1) / 3., ttp, ttp / 3., ttp - 2, (-2. + ttp) / 3.);
+    const int ssp = Ip.get("SS"); // spin multiplicity
+    return ssp * switch3(tt1, ttp + 2, 1. + (ttp - 1) / 3., ttp, ttp / 3., ttp - 2, (-2. + ttp) / 3.);
   }
 
   // Creation operator is a spin-doublet, angular-momentum-triplet !
diff --git a/c++/symmetry/sym-SPSU2T-impl.hpp b/c++/symmetry/sym-SPSU2T-impl.hpp
index e45b807..50d4887 100644
--- a/c++/symmetry/sym-SPSU2T-impl.hpp
+++ b/c++/symmetry/sym-SPSU2T-impl.hpp
@@ -44,7 +44,8 @@ class SymmetrySPSU2T : public Symmetry<SC> {
     const int ssp = Ip.get("SS");
     const int ss1 = I1.get("SS");
     my_assert((std::abs(ss1 - ssp) == 2 || ss1 == ssp));
-    return switch3(ss1, ssp + 2, 1. + (ssp - 1) / 3., ssp, ssp / 3., ssp - 2, (-2. + ssp) / 3.);
+    const int tp = Ip.get("T"); // orbital multiplicity
+    return (2 * tp + 1) * switch3(ss1, ssp + 2, 1. + (ssp - 1) / 3., ssp, ssp / 3., ssp - 2, (-2. + ssp) / 3.);
   }
 
   // Creation operator is a spin-doublet, angular-momentum-triplet !
-- 
2.43.0


From dfcb59eed911cef3e936df05752949f1c3df5765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:04 +0000
Subject: [PATCH 31/49] fix: SPSU2T triplet tables were 0/0 for some subspaces

---
 c++/symmetry/coefnew/spsu2t/spsu2t-tripletp.dat | 2 +-
 c++/symmetry/coefnew/spsu2t/spsu2t-triplets.dat | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/c++/symmetry/coefnew/spsu2t/spsu2t-tripletp.dat b/c++/symmetry/coefnew/spsu2t/spsu2t-tripletp.dat
index 5307aac..2062493 100644
--- a/c++/symmetry/coefnew/spsu2t/spsu2t-tripletp.dat
+++ b/c++/symmetry/coefnew/spsu2t/spsu2t-tripletp.dat
@@ -96,6 +96,6 @@
 { 63, 61, Invar(1 + ss1, t1), Invar(-1 + ss1, t1), sqrt(3)/(sqrt(S(ss1)*(1 + S(ss1)))*(1 + 2*S(ss1)))},
 { 63, 62, Invar(1 + ss1, t1), Invar(1 + ss1, t1), (-4*sqrt(S(ss1)*(2 + S(ss1))*(3 + 5*S(ss1) + 2*Power(S(ss1),2))))/((1 + S(ss1))*(3 + 8*S(ss1) + 4*Power(S(ss1),2)))},
 { 63, 63, Invar(1 + ss1, t1), Invar(3 + ss1, t1), ((5 + 2*S(ss1))*sqrt((S(ss1)*(1 + S(ss1)))/(15 + 16*S(ss1) + 4*Power(S(ss1),2))))/(1 + S(ss1))},
-{ 64, 62, Invar(3 + ss1, t1), Invar(1 + ss1, t1), (sqrt(3)*sqrt(S(ss1)*(1 + S(ss1)))*(sqrt((Power(2 + S(ss1),2)*(3 + 2*S(ss1))*Power(1 + 3*S(ss1) + 2*Power(S(ss1),2),3))/S(ss1)) - 4*Power(1 + S(ss1),1.5)*sqrt((S(ss1)*(1 + 2*S(ss1)))/(3 + 2*S(ss1)))*(2 + 5*S(ss1) + 2*Power(S(ss1),2)) + (Power(1 + S(ss1),1.5)*(2 + 5*S(ss1) + 2*Power(S(ss1),2)))/sqrt((S(ss1)*(3 + 2*S(ss1)))/(1 + 2*S(ss1))) + 3*(2 + 3*S(ss1) + Power(S(ss1),2))*sqrt((Power(1 - 2*S(ss1),2)*S(ss1)*(1 + 2*S(ss1)))/(3 + 5*S(ss1) + 2*Power(S(ss1),2))) - 5*sqrt((S(ss1)*(1 + 2*S(ss1)))/(3 + 5*S(ss1) + 2*Power(S(ss1),2)))*(2 + 7*S(ss1) + 7*Power(S(ss1),2) + 2*Power(S(ss1),3)) + 2*S(ss1)*sqrt((S(ss1)*(1 + 2*S(ss1)))/(3 + 5*S(ss1) + 2*Power(S(ss1),2)))*(2 + 7*S(ss1) + 7*Power(S(ss1),2) + 2*Power(S(ss1),3))))/(2.*(1 + 2*S(ss1))*Power(2 + 3*S(ss1) + Power(S(ss1),2),2))},
+{ 64, 62, Invar(3 + ss1, t1), Invar(1 + ss1, t1), sqrt(3)/((1 + S(ss1))*sqrt((1 + 2*S(ss1))*(3 + 2*S(ss1))))},
 { 64, 63, Invar(3 + ss1, t1), Invar(3 + ss1, t1), -((sqrt(3)*sqrt(1 + S(ss1))*(7*sqrt((5 + 2*S(ss1))/(3 + 2*S(ss1))) - 4*Power(S(ss1),3)*sqrt((5 + 2*S(ss1))/(3 + 2*S(ss1))) + sqrt(15 + 16*S(ss1) + 4*Power(S(ss1),2)) + 2*Power(S(ss1),2)*(-5*sqrt((5 + 2*S(ss1))/(3 + 2*S(ss1))) + sqrt(15 + 16*S(ss1) + 4*Power(S(ss1),2))) + S(ss1)*(-2*sqrt((5 + 2*S(ss1))/(3 + 2*S(ss1))) + 3*sqrt(15 + 16*S(ss1) + 4*Power(S(ss1),2)))))/(Power(5 + 2*S(ss1),1.5)*(2 + 3*S(ss1) + Power(S(ss1),2))))},
 { 64, 64, Invar(3 + ss1, t1), Invar(5 + ss1, t1), (sqrt((1 + S(ss1))*(1 + 2*S(ss1)))*(15*sqrt((2 + S(ss1))/(1 + 3*S(ss1) + 2*Power(S(ss1),2))) + 9*sqrt((2 + 5*S(ss1) + 2*Power(S(ss1),2))/(1 + S(ss1))) + 6*sqrt(2 + 7*S(ss1) + 7*Power(S(ss1),2) + 2*Power(S(ss1),3)) + S(ss1)*sqrt(2 + 7*S(ss1) + 7*Power(S(ss1),2) + 2*Power(S(ss1),3))))/(Power(2 + S(ss1),1.5)*(15 + 11*S(ss1) + 2*Power(S(ss1),2)))},
diff --git a/c++/symmetry/coefnew/spsu2t/spsu2t-triplets.dat b/c++/symmetry/coefnew/spsu2t/spsu2t-triplets.dat
index 50c8507..022fa6b 100644
--- a/c++/symmetry/coefnew/spsu2t/spsu2t-triplets.dat
+++ b/c++/symmetry/coefnew/spsu2t/spsu2t-triplets.dat
@@ -54,7 +54,7 @@
 { 34, 39, Invar(-1 + ss1, -1 + t1), Invar(1 + ss1, -1 + t1), 1/sqrt((1 + S(ss1))*(1 + 2*S(ss1)))},
 { 35, 35, Invar(-1 + ss1, t1), Invar(-1 + ss1, t1), 1/sqrt((S(ss1)*(1 + 2*S(ss1)))/(-1 + S(ss1) + 2*Power(S(ss1),2)))},
 { 35, 40, Invar(-1 + ss1, t1), Invar(1 + ss1, t1), 1/sqrt(1 + 3*S(ss1) + 2*Power(S(ss1),2))},
-{ 36, 36, Invar(-1 + ss1, 1 + t1), Invar(-1 + ss1, 1 + t1), (T*((3*S(ss1)*Power(T,2)*(1 + T)*Power(6 + 7*T + 2*Power(T,2),1.5))/sqrt((-1 + 2*S(ss1))/(1 + 2*T)) + (6*S(ss1)*T*(1 + T)*Power(6 + 7*T + 2*Power(T,2),1.5))/sqrt((-1 + 2*S(ss1))*(1 + 2*T)) + (9*S(ss1)*Power(T,2)*(1 + T)*Power(6 + 7*T + 2*Power(T,2),1.5))/sqrt((-1 + 2*S(ss1))*(1 + 2*T)) + sqrt((Power(S(ss1),2)*(1 + 2*T)*Power(T + Power(T,2),4)*Power(6 + 7*T + 2*Power(T,2),3))/(-1 + 2*S(ss1)))))/sqrt((Power(S(ss1),3)*(1 + 2*S(ss1))*Power(T + Power(T,2),4)*Power(6 + 7*T + 2*Power(T,2),5))/((1 + S(ss1))*Power(-1 + 2*S(ss1),2)*(1 + 2*T)))},
+{ 36, 36, Invar(-1 + ss1, 1 + t1), Invar(-1 + ss1, 1 + t1), sqrt((-1 + S(ss1) + 2*Power(S(ss1),2))/(S(ss1)*(1 + 2*S(ss1))))},
 { 36, 41, Invar(-1 + ss1, 1 + t1), Invar(1 + ss1, 1 + t1), 1/sqrt((1 + S(ss1))*(1 + 2*S(ss1)))},
 { 37, 37, Invar(-1 + ss1, 2 + t1), Invar(-1 + ss1, 2 + t1), sqrt((1 + S(ss1))/((1 + 2*S(ss1))*(30 + 77*T + 71*Power(T,2) + 28*Power(T,3) + 4*Power(T,4))))*(2*(1 + 2*T)*sqrt(((-1 + 2*S(ss1))*(3 + 5*T + 2*Power(T,2)))/(S(ss1)*(10 + 9*T + 2*Power(T,2)))) + (1 + 2*T)*sqrt(((-1 + 2*S(ss1))*(6 + 13*T + 9*Power(T,2) + 2*Power(T,3)))/(S(ss1)*(5 + 2*T))) + 6*(1 + 2*T)*sqrt(((-1 + 2*S(ss1))*(1 + T))/(S(ss1)*(30 + 47*T + 24*Power(T,2) + 4*Power(T,3)))) + 6*sqrt((-1 + 2*S(ss1))/(S(ss1)*(30 + 77*T + 71*Power(T,2) + 28*Power(T,3) + 4*Power(T,4)))) + 6*(1 + 2*T)*sqrt((-1 + 2*S(ss1))/(S(ss1)*(30 + 77*T + 71*Power(T,2) + 28*Power(T,3) + 4*Power(T,4)))))},
 { 37, 42, Invar(-1 + ss1, 2 + t1), Invar(1 + ss1, 2 + t1), 1/sqrt(1 + 3*S(ss1) + 2*Power(S(ss1),2))},
@@ -116,7 +116,7 @@
 { 62, 62, Invar(-1 + ss1, t1), Invar(-1 + ss1, t1), (-4 + S(ss1) + 2*Power(S(ss1),2))/sqrt(S(ss1)*(1 + S(ss1))*(-1 + 4*Power(S(ss1),2)))},
 { 62, 63, Invar(-1 + ss1, t1), Invar(1 + ss1, t1), (3*sqrt((S(ss1)*(1 + S(ss1))*(3 + 2*S(ss1)))/(-1 + 4*Power(S(ss1),2))) - 10*S(ss1)*sqrt((S(ss1)*(1 + S(ss1))*(3 + 2*S(ss1)))/(-1 + 4*Power(S(ss1),2))) + 8*Power(S(ss1),2)*sqrt((S(ss1)*(1 + S(ss1))*(3 + 2*S(ss1)))/(-1 + 4*Power(S(ss1),2))) + 9*(1 + S(ss1))*sqrt((S(ss1)*(-3 + 4*S(ss1) + 4*Power(S(ss1),2)))/(1 + 3*S(ss1) + 2*Power(S(ss1),2))))/(2.*S(ss1)*Power(1 + S(ss1),1.5)*(3 + 2*S(ss1)))},
 { 63, 62, Invar(1 + ss1, t1), Invar(-1 + ss1, t1), (3*sqrt((S(ss1)*(3 + 2*S(ss1)))/(1 + 2*S(ss1))) - 5*sqrt((Power(S(ss1),3)*(3 + 2*S(ss1)))/(1 + 2*S(ss1))) - 4*sqrt((Power(S(ss1),5)*(3 + 2*S(ss1)))/(1 + 2*S(ss1))) + 4*sqrt((Power(S(ss1),7)*(3 + 2*S(ss1)))/(1 + 2*S(ss1))) + sqrt(Power(S(ss1),3)*(3 + 8*S(ss1) + 4*Power(S(ss1),2))) - 2*sqrt(Power(S(ss1),5)*(3 + 8*S(ss1) + 4*Power(S(ss1),2))))/(S(ss1)*(3 + 2*S(ss1))*sqrt(S(ss1)*(-1 + S(ss1) + 2*Power(S(ss1),2))))},
-{ 63, 63, Invar(1 + ss1, t1), Invar(1 + ss1, t1), (-9*sqrt((-3 + 4*S(ss1) + 4*Power(S(ss1),2))/(1 + 2*S(ss1))) + S(ss1)*(6*sqrt((-3 + 4*S(ss1) + 4*Power(S(ss1),2))/(1 + 2*S(ss1))) - 3*sqrt(-3 - 2*S(ss1) + 12*Power(S(ss1),2) + 8*Power(S(ss1),3))) + 2*Power(S(ss1),2)*(8*sqrt((-3 + 4*S(ss1) + 4*Power(S(ss1),2))/(1 + 2*S(ss1))) + sqrt(-3 - 2*S(ss1) + 12*Power(S(ss1),2) + 8*Power(S(ss1),3))))/(Power(3 + 2*S(ss1),2)*sqrt(S(ss1)*(-1 + S(ss1) + 2*Power(S(ss1),2))))},
+{ 63, 63, Invar(1 + ss1, t1), Invar(1 + ss1, t1), (-3 + 3*S(ss1) + 2*Power(S(ss1),2))/sqrt(S(ss1)*(1 + S(ss1))*(1 + 2*S(ss1))*(3 + 2*S(ss1)))},
 { 63, 64, Invar(1 + ss1, t1), Invar(3 + ss1, t1), sqrt(3)/sqrt((1 + S(ss1))*(3 + 2*S(ss1)))},
-{ 64, 63, Invar(3 + ss1, t1), Invar(1 + ss1, t1), -0.5*(sqrt(3)*sqrt((-1 + S(ss1) + 2*Power(S(ss1),2))/(2 + S(ss1)))*(9*sqrt((3 + 5*S(ss1) + 2*Power(S(ss1),2))/(-1 + 2*S(ss1))) + 20*S(ss1)*sqrt((3 + 5*S(ss1) + 2*Power(S(ss1),2))/(-1 + 2*S(ss1))) + 4*Power(S(ss1),2)*sqrt((3 + 5*S(ss1) + 2*Power(S(ss1),2))/(-1 + 2*S(ss1))) - 3*sqrt(-3 + S(ss1) + 8*Power(S(ss1),2) + 4*Power(S(ss1),3))))/Power(3 + 5*S(ss1) + 2*Power(S(ss1),2),2)},
+{ 64, 63, Invar(3 + ss1, t1), Invar(1 + ss1, t1), -((sqrt(3)*sqrt((2 + S(ss1))/(3 + 2*S(ss1))))/(1 + S(ss1)))},
 { 64, 64, Invar(3 + ss1, t1), Invar(3 + ss1, t1), sqrt(1 + S(ss1))*(9*sqrt((S(ss1)*Power(1 + 2*S(ss1),2))/(Power(3 + 2*S(ss1),3)*(5 + 2*S(ss1))*Power(2 + 3*S(ss1) + Power(S(ss1),2),2))) + ((1 + 2*S(ss1))*sqrt(S(ss1)/(15 + 16*S(ss1) + 4*Power(S(ss1),2))))/(2 + S(ss1)) + (6*(1 + 2*S(ss1))*sqrt(S(ss1)/(15 + 16*S(ss1) + 4*Power(S(ss1),2))))/(6 + 7*S(ss1) + 2*Power(S(ss1),2)) + (12*sqrt(S(ss1)/(15 + 16*S(ss1) + 4*Power(S(ss1),2))))/(6 + 13*S(ss1) + 9*Power(S(ss1),2) + 2*Power(S(ss1),3)))},
-- 
2.43.0


From fc3fd6b69b10f82a7e99f1edf1f31a0a5deeb78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:06 +0000
Subject: [PATCH 32/49] fix: patching window of FT and DMNRG spectra with
 absolute=true

The window of the spectrum patching (Emin, Ex, Emax) is defined relative to the
energy scale of the NRG iteration. step.scale() is 1 when unscaled energies are
used, so that every iteration contributed in the same window around the band
edge and the low-energy part of the spectral function was lost.
---
 c++/algo_DMNRG.hpp | 4 ++--
 c++/spectrum.hpp   | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/c++/algo_DMNRG.hpp b/c++/algo_DMNRG.hpp
index 54e08fc..3b8fda9 100644
--- a/c++/algo_DMNRG.hpp
+++ b/c++/algo_DMNRG.hpp
@@ -30,8 +30,8 @@ class Algo_DMNRG : public Algo<S> {
     void calc(const Step &step, const Eigen<S> &diagIp, const Eigen<S> &diagI1, const Matrix &op1, const Matrix &op2,
               t_coef factor, const Invar &Ip, const Invar &I1, const DensMatElements<S> &rho, [[maybe_unused]] const Stats<S> &stats) override
     {
-      const auto Emin = step.scale() * P.getEmin();
-      const auto Emax = step.scale() * P.getEmax();
+      const auto Emin = step.energyscale() * P.getEmin();
+      const auto Emax = step.energyscale() * P.getEmax();
       const auto &rhoNIp = rho.at(Ip);
       const auto &rhoNI1 = rho.at(I1);
       const auto nrIpKept = diagIp.getnrkept();
diff --git a/c++/spectrum.hpp b/c++/spectrum.hpp
index 4fbc03d..cb01b9f 100644
--- a/c++/spectrum.hpp
+++ b/c++/spectrum.hpp
@@ -117,9 +117,9 @@ inline double windowfunction(const double E, const double Emin, const double Ex,
 // See R. Bulla, T. A. Costi, D. Vollhardt, Phys. Rev. B 64, 045103 (2001)
 template<scalar S>
 void SpectrumRealFreq<S>::mergeNN2half(Bins<S> &fullspec, const Bins<S> &cs, const Step &step) {
-  const auto Emin = step.scale() * P.getEmin(); // p
-  const auto Ex   = step.scale() * P.getEx();   // p Lambda
-  const auto Emax = step.scale() * P.getEmax(); // p Lambda^2
+  const auto Emin = step.energyscale() * P.getEmin(); // p
+  const auto Ex   = step.energyscale() * P.getEx();   // p Lambda
+  const auto Emax = step.energyscale() * P.getEmax(); // p Lambda^2
   const auto len = fullspec.bins.size();
   my_assert(len == cs.bins.size()); // We require equivalent bin sets!!
   for (const auto i: range0(len)) {
-- 
2.43.0


From f17f9f6fb12c76f03d197bd161f173c881bfd4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:06 +0000
Subject: [PATCH 33/49] fix: temperatures of GT/I1T/I2T/CHIT calculations with
 absolute=true

The temperature of an iteration is gtp (chitp) in units of its energy scale.
With unscaled energies step.scale() is 1, so that every iteration was evaluated
at the same temperature.
---
 c++/algo_FT.hpp      | 4 ++--
 c++/measurements.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/c++/algo_FT.hpp b/c++/algo_FT.hpp
index 2a6ff34..826905b 100644
--- a/c++/algo_FT.hpp
+++ b/c++/algo_FT.hpp
@@ -126,7 +126,7 @@ class Algo_GT : public Algo<S> {
    void calc(const Step &step, const Eigen<S> &diagIp, const Eigen<S> &diagI1, const Matrix &op1, const Matrix &op2, 
              t_coef factor, const Invar &, const Invar &, const DensMatElements<S> &, const Stats<S> &stats) override 
    {
-     const double temperature = P.gtp * step.scale(); // in absolute units! stats.Zgt is evaluated for this temperature.
+     const double temperature = P.gtp * step.energyscale(); // in absolute units! stats.Zgt is evaluated for this temperature.
      const auto stat_factor = [beta = 1.0/temperature, Z = stats.Zgt](const auto E1, const auto Ep) {
        return beta / (exp(+beta*E1) + exp(+beta*Ep)) * pow(E1 - Ep, n)/Z; // n is template parameter
      };
@@ -168,7 +168,7 @@ class Algo_CHIT : public Algo<S> {
    void calc(const Step &step, const Eigen<S> &diagIp, const Eigen<S> &diagI1, const Matrix &op1, const Matrix &op2,
              t_coef factor, const Invar &, const Invar &, const DensMatElements<S> &, const Stats<S> &stats) override
    {
-     const double temperature = P.chitp * step.scale(); // in absolute units! stats.Zchit is evaluated for this temperature.
+     const double temperature = P.chitp * step.energyscale(); // in absolute units! stats.Zchit is evaluated for this temperature.
      const auto stat_factor = [temperature, Z = stats.Zchit](const auto E1, const auto Ep) {
        return chit_weight(E1, Ep, 1.0/temperature)/Z;
      };
diff --git a/c++/measurements.hpp b/c++/measurements.hpp
index 8476a6c..d6d101a 100644
--- a/c++/measurements.hpp
+++ b/c++/measurements.hpp
@@ -191,9 +191,9 @@ void calc_Z(const Step &step, Stats<S> &stats, const DiagInfo<S> &diag, MF mult,
   stats.Zft = grand_canonical_Z(step.scT(), diag, mult);
   nrglog('Z', "Z_ft=" << stats.Zft);
   if (std::string(P.specgt) != "" || std::string(P.speci1t) != "" || std::string(P.speci2t) != "")
-    stats.Zgt = grand_canonical_Z(1.0/P.gtp, diag, mult); // exp(-x*gtp)
+    stats.Zgt = grand_canonical_Z(1.0/(P.gtp * step.unscale()), diag, mult); // exp(-x/gtp), x in units of the energy scale
   if (std::string(P.specchit) != "")
-    stats.Zchit = grand_canonical_Z(1.0/P.chitp, diag, mult); // exp(-x*chitp)
+    stats.Zchit = grand_canonical_Z(1.0/(P.chitp * step.unscale()), diag, mult); // exp(-x/chitp)
 }
 
 template<scalar S>
-- 
2.43.0


From 9142efd3e006cceb91988704840c0862f1f71894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:45 +0000
Subject: [PATCH 34/49] fix: averagefiles_mc takes the square root of a
 variance that rounding made negative

---
 scripts/averagefiles_mc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/averagefiles_mc b/scripts/averagefiles_mc
index 7758321..ef4ea1f 100755
--- a/scripts/averagefiles_mc
+++ b/scripts/averagefiles_mc
@@ -68,6 +68,7 @@ for (my $l = 0; $l < $len; $l++) {
     my $y2 = $sumy2[$l];
     
     my $variance = ($y2-$y*$y);
+    $variance = 0 if $variance < 0; # rounding errors
     
     # Standard deviation of the sample
     my $stddev = sqrt($variance);
-- 
2.43.0


From 3f5fa9ae556d5f4f853b7c882d88d44db10ce86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:45 +0000
Subject: [PATCH 35/49] fix: block and lastblock lose a last block that is not
 followed by an empty line

---
 scripts/block     | 5 +++++
 scripts/lastblock | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/scripts/block b/scripts/block
index 1d16138..117479b 100755
--- a/scripts/block
+++ b/scripts/block
@@ -42,3 +42,8 @@ while(<F>) {
         }
     }
 }
+
+# The last block need not be followed by an empty line
+if (@block && ++$ctr == $N) {
+    print @block;
+}
diff --git a/scripts/lastblock b/scripts/lastblock
index b77d43e..a919f55 100755
--- a/scripts/lastblock
+++ b/scripts/lastblock
@@ -39,4 +39,5 @@ while(<F>) {
   }
 }
 
-print @lastblock;
+# The last block need not be followed by an empty line
+print(@block ? @block : @lastblock);
-- 
2.43.0


From ee8e6ba9bf8ec10b72579f5eb42e931a87fc8d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:45 +0000
Subject: [PATCH 36/49] fix: getNz reads the wrong file (bitwise or of the
 filename with param.loop)

---
 scripts/getNz | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/getNz b/scripts/getNz
index 25c3e44..7a1a7b0 100755
--- a/scripts/getNz
+++ b/scripts/getNz
@@ -6,7 +6,7 @@ if (@ARGV != 0 && @ARGV != 1) {
     die "Usage: getNz [param filename]\n";
 }
 
-my $fn = shift | "param.loop";
+my $fn = shift || "param.loop";
 
 open (F, "<$fn") or die "Can't open $fn for reading: $!\n";
 
-- 
2.43.0


From 0e4bd61f7aff7cf1b46e60040cec539253ea99b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:45 +0000
Subject: [PATCH 37/49] fix: integrate and integrateeps add a trapezoid from
 the origin when the file starts with a comment

---
 scripts/integrate    | 6 +++---
 scripts/integrateeps | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/scripts/integrate b/scripts/integrate
index b755eed..d6b1e32 100755
--- a/scripts/integrate
+++ b/scripts/integrate
@@ -9,8 +9,8 @@
 use strict;
 use warnings;
 
-my $xprev = 0;
-my $yprev = 0;
+my $xprev;
+my $yprev;
 my $sum = 0;
 
 while (<>) {
@@ -18,7 +18,7 @@ while (<>) {
   next if /^#/; # skip comments
   my ($x,$y,$remainder) = split;
   
-  if ($. != 1) {
+  if (defined($xprev)) {
     $sum += ($x-$xprev) * ($y + $yprev)/2.0;
   }
   
diff --git a/scripts/integrateeps b/scripts/integrateeps
index 10ce24f..3976c62 100755
--- a/scripts/integrateeps
+++ b/scripts/integrateeps
@@ -5,8 +5,8 @@
 use strict;
 use warnings;
 
-my $xprev = 0;
-my $yprev = 0;
+my $xprev;
+my $yprev;
 my $sum = 0;
 
 while (<>) {
@@ -14,7 +14,7 @@ while (<>) {
   next if /^#/; # skip comments
   my ($x,$y,$remainder) = split;
 
-  if ($. != 1) {
+  if (defined($xprev)) {
     my $xavg = ($x+$xprev)/2.0;
     $sum += $xavg * ($x-$xprev) * ($y + $yprev)/2.0;
   }
-- 
2.43.0


From f7bd1fc38390ef6bb967a31e154dea6db4bcfc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:45 +0000
Subject: [PATCH 38/49] fix: integrateab ignores an interval that lies between
 two points

---
 scripts/integrateab | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scripts/integrateab b/scripts/integrateab
index 372fc5a..7b598a6 100755
--- a/scripts/integrateab
+++ b/scripts/integrateab
@@ -46,6 +46,11 @@ while (<F>) {
             # Interpolate the value at x=b
             $y1 = $slope * ($b - $xprev) + $yprev;
             $sum += ($b-$xprev) * ($yprev + $y1)/2.0;
+        } elsif ($xprev < $a && $x > $b) {
+            # [a:b] lies between $xprev and $x
+            $ym1 = $slope * ($a - $xprev) + $yprev;
+            $y1 = $slope * ($b - $xprev) + $yprev;
+            $sum += ($b-$a) * ($ym1 + $y1)/2.0;
         }
     }
     $xprev = $x;
-- 
2.43.0


From 7a8b11176903a6d5b9192045dfdf9a800390c668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:45 +0000
Subject: [PATCH 39/49] fix: inverty refuses to read from standard input

---
 scripts/inverty | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/scripts/inverty b/scripts/inverty
index be3d3e2..8ae7a08 100755
--- a/scripts/inverty
+++ b/scripts/inverty
@@ -2,9 +2,7 @@
 # Invert the second column in tabulated data
 # Rok Zitko, Dec 2016
 
-if (@ARGV < 1) {
-    die "Usage: inverty [filename]\n";
-}     
+# Usage: inverty [filename]
 
 while (<>) {
   if (!/^#/) {
-- 
2.43.0


From a11a3542fb0d3644c1bbb2843361c0e4b96a5659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:45 +0000
Subject: [PATCH 40/49] fix: verbatim Perl lines of looper keep their
 exclamation mark

---
 scripts/looper | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/scripts/looper b/scripts/looper
index f5ab3d4..0566701 100755
--- a/scripts/looper
+++ b/scripts/looper
@@ -86,8 +86,7 @@ while (<>) {
 	    forline "for($1) { \n";
 	    $looplevel++;
 	} elsif (/^!(.*)/) { # Verbatim Perl expression
-	    chomp;
-	    loopline "$_;\n";
+	    loopline "$1;\n";
 	} else {
 	    chomp;
 	    loopline "print F \"$_\\n\"; \n";
-- 
2.43.0


From 64b7a8a178d0471e6bdd27b0062f4d4d2d84fc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:45 +0000
Subject: [PATCH 41/49] fix: normalize calls a script that does not exist

---
 scripts/normalize | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/normalize b/scripts/normalize
index 8e8eee4..b66436b 100755
--- a/scripts/normalize
+++ b/scripts/normalize
@@ -16,5 +16,5 @@ chomp(my $norm = `integrate $fn`);
 
 my $invnorm = 1.0/$norm;
 
-system "scaleby $invnorm $fn";
+system "scaley $invnorm $fn";
 
-- 
2.43.0


From 86c9220101b3c8bef2af3e23046c8d8ff4800771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:45 +0000
Subject: [PATCH 42/49] fix: optimize_mesh divides by zero where the function
 vanishes

---
 scripts/optimize_mesh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/optimize_mesh b/scripts/optimize_mesh
index 7d68129..47b9027 100755
--- a/scripts/optimize_mesh
+++ b/scripts/optimize_mesh
@@ -60,7 +60,7 @@ while (<F>) {
           my $slope = ($y2-$y1)/($x2-$x1);
           my $yest = $y2 + $slope * ($x-$x2); # linear extrapolation
           my $error = abs($y - $yest);
-          my $rel = 2.0 * $error / (abs($y) + abs($yest));
+          my $rel = 2.0 * $error / (abs($y) + abs($yest) + $smalleps);
           $maxrel = ($rel > $maxrel ? $rel : $maxrel);
 
           if ($rel > $delta && abs($x-$x2) > $dxmin && (abs($y)+abs($y2))>2.0*$miny) { # Error too large, adding point (between previous and current)
-- 
2.43.0


From ae58e69f41af67e4c8f3ea8340f50f0d75349802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:26 +0000
Subject: [PATCH 43/49] fix: triplet and orbital-triplet recursion tables were
 0/0 for some subspaces (QS, QSTZ, QJ, SPSU2T)

---
 c++/symmetry/coefnew/qj/qj-tripletp.dat          | 10 +++++-----
 c++/symmetry/coefnew/qj/qj-triplets.dat          | 10 +++++-----
 c++/symmetry/coefnew/qs/qs-3ch-triplets.dat      |  2 +-
 c++/symmetry/coefnew/qs/qs-4ch-triplets.dat      | 16 ++++++++--------
 c++/symmetry/coefnew/qstz/qstz-tripletp.dat      |  2 +-
 c++/symmetry/coefnew/qstz/qstz-triplets.dat      | 14 +++++++-------
 .../coefnew/spsu2t/spsu2t-doubletm+1.dat         |  2 +-
 7 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/c++/symmetry/coefnew/qj/qj-tripletp.dat b/c++/symmetry/coefnew/qj/qj-tripletp.dat
index 5827530..81d5a3d 100644
--- a/c++/symmetry/coefnew/qj/qj-tripletp.dat
+++ b/c++/symmetry/coefnew/qj/qj-tripletp.dat
@@ -8,7 +8,7 @@
 { 6, 4, Invar(2 + q1, 1 + jj1), Invar(2 + q1, -1 + jj1), sqrt(3)/(sqrt(J(jj1)*(1 + J(jj1)))*(1 + 2*J(jj1)))},
 { 6, 5, Invar(2 + q1, 1 + jj1), Invar(2 + q1, 1 + jj1), (-4*sqrt(J(jj1)*(2 + J(jj1))*(3 + 5*J(jj1) + 2*Power(J(jj1),2))))/((1 + J(jj1))*(3 + 8*J(jj1) + 4*Power(J(jj1),2)))},
 { 6, 6, Invar(2 + q1, 1 + jj1), Invar(2 + q1, 3 + jj1), ((5 + 2*J(jj1))*sqrt((J(jj1)*(1 + J(jj1)))/(15 + 16*J(jj1) + 4*Power(J(jj1),2))))/(1 + J(jj1))},
-{ 7, 5, Invar(2 + q1, 3 + jj1), Invar(2 + q1, 1 + jj1), (sqrt(3)*sqrt(J(jj1)*(1 + J(jj1)))*(sqrt((Power(2 + J(jj1),2)*(3 + 2*J(jj1))*Power(1 + 3*J(jj1) + 2*Power(J(jj1),2),3))/J(jj1)) - 4*Power(1 + J(jj1),1.5)*sqrt((J(jj1)*(1 + 2*J(jj1)))/(3 + 2*J(jj1)))*(2 + 5*J(jj1) + 2*Power(J(jj1),2)) + (Power(1 + J(jj1),1.5)*(2 + 5*J(jj1) + 2*Power(J(jj1),2)))/sqrt((J(jj1)*(3 + 2*J(jj1)))/(1 + 2*J(jj1))) + 3*(2 + 3*J(jj1) + Power(J(jj1),2))*sqrt((Power(1 - 2*J(jj1),2)*J(jj1)*(1 + 2*J(jj1)))/(3 + 5*J(jj1) + 2*Power(J(jj1),2))) - 5*sqrt((J(jj1)*(1 + 2*J(jj1)))/(3 + 5*J(jj1) + 2*Power(J(jj1),2)))*(2 + 7*J(jj1) + 7*Power(J(jj1),2) + 2*Power(J(jj1),3)) + 2*J(jj1)*sqrt((J(jj1)*(1 + 2*J(jj1)))/(3 + 5*J(jj1) + 2*Power(J(jj1),2)))*(2 + 7*J(jj1) + 7*Power(J(jj1),2) + 2*Power(J(jj1),3))))/(2.*(1 + 2*J(jj1))*Power(2 + 3*J(jj1) + Power(J(jj1),2),2))},
+{ 7, 5, Invar(2 + q1, 3 + jj1), Invar(2 + q1, 1 + jj1), sqrt(3)/((1 + J(jj1))*sqrt((1 + 2*J(jj1))*(3 + 2*J(jj1))))},
 { 7, 6, Invar(2 + q1, 3 + jj1), Invar(2 + q1, 3 + jj1), -((sqrt(3)*sqrt(1 + J(jj1))*(7*sqrt((5 + 2*J(jj1))/(3 + 2*J(jj1))) - 4*Power(J(jj1),3)*sqrt((5 + 2*J(jj1))/(3 + 2*J(jj1))) + sqrt(15 + 16*J(jj1) + 4*Power(J(jj1),2)) + 2*Power(J(jj1),2)*(-5*sqrt((5 + 2*J(jj1))/(3 + 2*J(jj1))) + sqrt(15 + 16*J(jj1) + 4*Power(J(jj1),2))) + J(jj1)*(-2*sqrt((5 + 2*J(jj1))/(3 + 2*J(jj1))) + 3*sqrt(15 + 16*J(jj1) + 4*Power(J(jj1),2)))))/(Power(5 + 2*J(jj1),1.5)*(2 + 3*J(jj1) + Power(J(jj1),2))))},
 { 7, 7, Invar(2 + q1, 3 + jj1), Invar(2 + q1, 5 + jj1), (sqrt((1 + J(jj1))*(1 + 2*J(jj1)))*(15*sqrt((2 + J(jj1))/(1 + 3*J(jj1) + 2*Power(J(jj1),2))) + 9*sqrt((2 + 5*J(jj1) + 2*Power(J(jj1),2))/(1 + J(jj1))) + 6*sqrt(2 + 7*J(jj1) + 7*Power(J(jj1),2) + 2*Power(J(jj1),3)) + J(jj1)*sqrt(2 + 7*J(jj1) + 7*Power(J(jj1),2) + 2*Power(J(jj1),3))))/(Power(2 + J(jj1),1.5)*(15 + 11*J(jj1) + 2*Power(J(jj1),2)))},
 { 8, 8, Invar(1 + q1, jj1), Invar(1 + q1, 2 + jj1), 1},
@@ -52,7 +52,7 @@
 { 27, 25, Invar(q1, 1 + jj1), Invar(q1, -1 + jj1), sqrt(3)/(sqrt(J(jj1)*(1 + J(jj1)))*(1 + 2*J(jj1)))},
 { 27, 26, Invar(q1, 1 + jj1), Invar(q1, 1 + jj1), (-4*sqrt(J(jj1)*(2 + J(jj1))*(3 + 5*J(jj1) + 2*Power(J(jj1),2))))/((1 + J(jj1))*(3 + 8*J(jj1) + 4*Power(J(jj1),2)))},
 { 27, 27, Invar(q1, 1 + jj1), Invar(q1, 3 + jj1), ((5 + 2*J(jj1))*sqrt((J(jj1)*(1 + J(jj1)))/(15 + 16*J(jj1) + 4*Power(J(jj1),2))))/(1 + J(jj1))},
-{ 28, 26, Invar(q1, 3 + jj1), Invar(q1, 1 + jj1), (sqrt(3)*sqrt(J(jj1)*(1 + J(jj1)))*(sqrt((Power(2 + J(jj1),2)*(3 + 2*J(jj1))*Power(1 + 3*J(jj1) + 2*Power(J(jj1),2),3))/J(jj1)) - 4*Power(1 + J(jj1),1.5)*sqrt((J(jj1)*(1 + 2*J(jj1)))/(3 + 2*J(jj1)))*(2 + 5*J(jj1) + 2*Power(J(jj1),2)) + (Power(1 + J(jj1),1.5)*(2 + 5*J(jj1) + 2*Power(J(jj1),2)))/sqrt((J(jj1)*(3 + 2*J(jj1)))/(1 + 2*J(jj1))) + 3*(2 + 3*J(jj1) + Power(J(jj1),2))*sqrt((Power(1 - 2*J(jj1),2)*J(jj1)*(1 + 2*J(jj1)))/(3 + 5*J(jj1) + 2*Power(J(jj1),2))) - 5*sqrt((J(jj1)*(1 + 2*J(jj1)))/(3 + 5*J(jj1) + 2*Power(J(jj1),2)))*(2 + 7*J(jj1) + 7*Power(J(jj1),2) + 2*Power(J(jj1),3)) + 2*J(jj1)*sqrt((J(jj1)*(1 + 2*J(jj1)))/(3 + 5*J(jj1) + 2*Power(J(jj1),2)))*(2 + 7*J(jj1) + 7*Power(J(jj1),2) + 2*Power(J(jj1),3))))/(2.*(1 + 2*J(jj1))*Power(2 + 3*J(jj1) + Power(J(jj1),2),2))},
+{ 28, 26, Invar(q1, 3 + jj1), Invar(q1, 1 + jj1), sqrt(3)/((1 + J(jj1))*sqrt((1 + 2*J(jj1))*(3 + 2*J(jj1))))},
 { 28, 27, Invar(q1, 3 + jj1), Invar(q1, 3 + jj1), -((sqrt(3)*sqrt(1 + J(jj1))*(7*sqrt((5 + 2*J(jj1))/(3 + 2*J(jj1))) - 4*Power(J(jj1),3)*sqrt((5 + 2*J(jj1))/(3 + 2*J(jj1))) + sqrt(15 + 16*J(jj1) + 4*Power(J(jj1),2)) + 2*Power(J(jj1),2)*(-5*sqrt((5 + 2*J(jj1))/(3 + 2*J(jj1))) + sqrt(15 + 16*J(jj1) + 4*Power(J(jj1),2))) + J(jj1)*(-2*sqrt((5 + 2*J(jj1))/(3 + 2*J(jj1))) + 3*sqrt(15 + 16*J(jj1) + 4*Power(J(jj1),2)))))/(Power(5 + 2*J(jj1),1.5)*(2 + 3*J(jj1) + Power(J(jj1),2))))},
 { 28, 28, Invar(q1, 3 + jj1), Invar(q1, 5 + jj1), (sqrt((1 + J(jj1))*(1 + 2*J(jj1)))*(15*sqrt((2 + J(jj1))/(1 + 3*J(jj1) + 2*Power(J(jj1),2))) + 9*sqrt((2 + 5*J(jj1) + 2*Power(J(jj1),2))/(1 + J(jj1))) + 6*sqrt(2 + 7*J(jj1) + 7*Power(J(jj1),2) + 2*Power(J(jj1),3)) + J(jj1)*sqrt(2 + 7*J(jj1) + 7*Power(J(jj1),2) + 2*Power(J(jj1),3))))/(Power(2 + J(jj1),1.5)*(15 + 11*J(jj1) + 2*Power(J(jj1),2)))},
 { 29, 29, Invar(q1, -3 + jj1), Invar(q1, -1 + jj1), 1/sqrt((J(jj1)*(1 + 2*J(jj1)))/(-3 + J(jj1) + 2*Power(J(jj1),2)))},
@@ -61,7 +61,7 @@
 { 31, 29, Invar(q1, 1 + jj1), Invar(q1, -1 + jj1), sqrt(3)/(sqrt(J(jj1)*(1 + J(jj1)))*(1 + 2*J(jj1)))},
 { 31, 30, Invar(q1, 1 + jj1), Invar(q1, 1 + jj1), (-4*sqrt(J(jj1)*(2 + J(jj1))*(3 + 5*J(jj1) + 2*Power(J(jj1),2))))/((1 + J(jj1))*(3 + 8*J(jj1) + 4*Power(J(jj1),2)))},
 { 31, 31, Invar(q1, 1 + jj1), Invar(q1, 3 + jj1), ((5 + 2*J(jj1))*sqrt((J(jj1)*(1 + J(jj1)))/(15 + 16*J(jj1) + 4*Power(J(jj1),2))))/(1 + J(jj1))},
-{ 32, 30, Invar(q1, 3 + jj1), Invar(q1, 1 + jj1), (sqrt(3)*sqrt(J(jj1)*(1 + J(jj1)))*(sqrt((Power(2 + J(jj1),2)*(3 + 2*J(jj1))*Power(1 + 3*J(jj1) + 2*Power(J(jj1),2),3))/J(jj1)) - 4*Power(1 + J(jj1),1.5)*sqrt((J(jj1)*(1 + 2*J(jj1)))/(3 + 2*J(jj1)))*(2 + 5*J(jj1) + 2*Power(J(jj1),2)) + (Power(1 + J(jj1),1.5)*(2 + 5*J(jj1) + 2*Power(J(jj1),2)))/sqrt((J(jj1)*(3 + 2*J(jj1)))/(1 + 2*J(jj1))) + 3*(2 + 3*J(jj1) + Power(J(jj1),2))*sqrt((Power(1 - 2*J(jj1),2)*J(jj1)*(1 + 2*J(jj1)))/(3 + 5*J(jj1) + 2*Power(J(jj1),2))) - 5*sqrt((J(jj1)*(1 + 2*J(jj1)))/(3 + 5*J(jj1) + 2*Power(J(jj1),2)))*(2 + 7*J(jj1) + 7*Power(J(jj1),2) + 2*Power(J(jj1),3)) + 2*J(jj1)*sqrt((J(jj1)*(1 + 2*J(jj1)))/(3 + 5*J(jj1) + 2*Power(J(jj1),2)))*(2 + 7*J(jj1) + 7*Power(J(jj1),2) + 2*Power(J(jj1),3))))/(2.*(1 + 2*J(jj1))*Power(2 + 3*J(jj1) + Power(J(jj1),2),2))},
+{ 32, 30, Invar(q1, 3 + jj1), Invar(q1, 1 + jj1), sqrt(3)/((1 + J(jj1))*sqrt((1 + 2*J(jj1))*(3 + 2*J(jj1))))},
 { 32, 31, Invar(q1, 3 + jj1), Invar(q1, 3 + jj1), -((sqrt(3)*sqrt(1 + J(jj1))*(7*sqrt((5 + 2*J(jj1))/(3 + 2*J(jj1))) - 4*Power(J(jj1),3)*sqrt((5 + 2*J(jj1))/(3 + 2*J(jj1))) + sqrt(15 + 16*J(jj1) + 4*Power(J(jj1),2)) + 2*Power(J(jj1),2)*(-5*sqrt((5 + 2*J(jj1))/(3 + 2*J(jj1))) + sqrt(15 + 16*J(jj1) + 4*Power(J(jj1),2))) + J(jj1)*(-2*sqrt((5 + 2*J(jj1))/(3 + 2*J(jj1))) + 3*sqrt(15 + 16*J(jj1) + 4*Power(J(jj1),2)))))/(Power(5 + 2*J(jj1),1.5)*(2 + 3*J(jj1) + Power(J(jj1),2))))},
 { 32, 32, Invar(q1, 3 + jj1), Invar(q1, 5 + jj1), (sqrt((1 + J(jj1))*(1 + 2*J(jj1)))*(15*sqrt((2 + J(jj1))/(1 + 3*J(jj1) + 2*Power(J(jj1),2))) + 9*sqrt((2 + 5*J(jj1) + 2*Power(J(jj1),2))/(1 + J(jj1))) + 6*sqrt(2 + 7*J(jj1) + 7*Power(J(jj1),2) + 2*Power(J(jj1),3)) + J(jj1)*sqrt(2 + 7*J(jj1) + 7*Power(J(jj1),2) + 2*Power(J(jj1),3))))/(Power(2 + J(jj1),1.5)*(15 + 11*J(jj1) + 2*Power(J(jj1),2)))},
 { 33, 33, Invar(q1, -3 + jj1), Invar(q1, -1 + jj1), 1/sqrt((J(jj1)*(1 + 2*J(jj1)))/(-3 + J(jj1) + 2*Power(J(jj1),2)))},
@@ -70,7 +70,7 @@
 { 35, 33, Invar(q1, 1 + jj1), Invar(q1, -1 + jj1), sqrt(3)/(sqrt(J(jj1)*(1 + J(jj1)))*(1 + 2*J(jj1)))},
 { 35, 34, Invar(q1, 1 + jj1), Invar(q1, 1 + jj1), (-4*sqrt(J(jj1)*(2 + J(jj1))*(3 + 5*J(jj1) + 2*Power(J(jj1),2))))/((1 + J(jj1))*(3 + 8*J(jj1) + 4*Power(J(jj1),2)))},
 { 35, 35, Invar(q1, 1 + jj1), Invar(q1, 3 + jj1), ((5 + 2*J(jj1))*sqrt((J(jj1)*(1 + J(jj1)))/(15 + 16*J(jj1) + 4*Power(J(jj1),2))))/(1 + J(jj1))},
-{ 36, 34, Invar(q1, 3 + jj1), Invar(q1, 1 + jj1), (sqrt(3)*sqrt(J(jj1)*(1 + J(jj1)))*(sqrt((Power(2 + J(jj1),2)*(3 + 2*J(jj1))*Power(1 + 3*J(jj1) + 2*Power(J(jj1),2),3))/J(jj1)) - 4*Power(1 + J(jj1),1.5)*sqrt((J(jj1)*(1 + 2*J(jj1)))/(3 + 2*J(jj1)))*(2 + 5*J(jj1) + 2*Power(J(jj1),2)) + (Power(1 + J(jj1),1.5)*(2 + 5*J(jj1) + 2*Power(J(jj1),2)))/sqrt((J(jj1)*(3 + 2*J(jj1)))/(1 + 2*J(jj1))) + 3*(2 + 3*J(jj1) + Power(J(jj1),2))*sqrt((Power(1 - 2*J(jj1),2)*J(jj1)*(1 + 2*J(jj1)))/(3 + 5*J(jj1) + 2*Power(J(jj1),2))) - 5*sqrt((J(jj1)*(1 + 2*J(jj1)))/(3 + 5*J(jj1) + 2*Power(J(jj1),2)))*(2 + 7*J(jj1) + 7*Power(J(jj1),2) + 2*Power(J(jj1),3)) + 2*J(jj1)*sqrt((J(jj1)*(1 + 2*J(jj1)))/(3 + 5*J(jj1) + 2*Power(J(jj1),2)))*(2 + 7*J(jj1) + 7*Power(J(jj1),2) + 2*Power(J(jj1),3))))/(2.*(1 + 2*J(jj1))*Power(2 + 3*J(jj1) + Power(J(jj1),2),2))},
+{ 36, 34, Invar(q1, 3 + jj1), Invar(q1, 1 + jj1), sqrt(3)/((1 + J(jj1))*sqrt((1 + 2*J(jj1))*(3 + 2*J(jj1))))},
 { 36, 35, Invar(q1, 3 + jj1), Invar(q1, 3 + jj1), -((sqrt(3)*sqrt(1 + J(jj1))*(7*sqrt((5 + 2*J(jj1))/(3 + 2*J(jj1))) - 4*Power(J(jj1),3)*sqrt((5 + 2*J(jj1))/(3 + 2*J(jj1))) + sqrt(15 + 16*J(jj1) + 4*Power(J(jj1),2)) + 2*Power(J(jj1),2)*(-5*sqrt((5 + 2*J(jj1))/(3 + 2*J(jj1))) + sqrt(15 + 16*J(jj1) + 4*Power(J(jj1),2))) + J(jj1)*(-2*sqrt((5 + 2*J(jj1))/(3 + 2*J(jj1))) + 3*sqrt(15 + 16*J(jj1) + 4*Power(J(jj1),2)))))/(Power(5 + 2*J(jj1),1.5)*(2 + 3*J(jj1) + Power(J(jj1),2))))},
 { 36, 36, Invar(q1, 3 + jj1), Invar(q1, 5 + jj1), (sqrt((1 + J(jj1))*(1 + 2*J(jj1)))*(15*sqrt((2 + J(jj1))/(1 + 3*J(jj1) + 2*Power(J(jj1),2))) + 9*sqrt((2 + 5*J(jj1) + 2*Power(J(jj1),2))/(1 + J(jj1))) + 6*sqrt(2 + 7*J(jj1) + 7*Power(J(jj1),2) + 2*Power(J(jj1),3)) + J(jj1)*sqrt(2 + 7*J(jj1) + 7*Power(J(jj1),2) + 2*Power(J(jj1),3))))/(Power(2 + J(jj1),1.5)*(15 + 11*J(jj1) + 2*Power(J(jj1),2)))},
 { 37, 37, Invar(q1, -5 + jj1), Invar(q1, -3 + jj1), sqrt((6 + J(jj1) - 2*Power(J(jj1),2))/(1 + J(jj1) - 2*Power(J(jj1),2)))},
@@ -129,7 +129,7 @@
 { 62, 60, Invar(-2 + q1, 1 + jj1), Invar(-2 + q1, -1 + jj1), sqrt(3)/(sqrt(J(jj1)*(1 + J(jj1)))*(1 + 2*J(jj1)))},
 { 62, 61, Invar(-2 + q1, 1 + jj1), Invar(-2 + q1, 1 + jj1), (-4*sqrt(J(jj1)*(2 + J(jj1))*(3 + 5*J(jj1) + 2*Power(J(jj1),2))))/((1 + J(jj1))*(3 + 8*J(jj1) + 4*Power(J(jj1),2)))},
 { 62, 62, Invar(-2 + q1, 1 + jj1), Invar(-2 + q1, 3 + jj1), ((5 + 2*J(jj1))*sqrt((J(jj1)*(1 + J(jj1)))/(15 + 16*J(jj1) + 4*Power(J(jj1),2))))/(1 + J(jj1))},
-{ 63, 61, Invar(-2 + q1, 3 + jj1), Invar(-2 + q1, 1 + jj1), (sqrt(3)*sqrt(J(jj1)*(1 + J(jj1)))*(sqrt((Power(2 + J(jj1),2)*(3 + 2*J(jj1))*Power(1 + 3*J(jj1) + 2*Power(J(jj1),2),3))/J(jj1)) - 4*Power(1 + J(jj1),1.5)*sqrt((J(jj1)*(1 + 2*J(jj1)))/(3 + 2*J(jj1)))*(2 + 5*J(jj1) + 2*Power(J(jj1),2)) + (Power(1 + J(jj1),1.5)*(2 + 5*J(jj1) + 2*Power(J(jj1),2)))/sqrt((J(jj1)*(3 + 2*J(jj1)))/(1 + 2*J(jj1))) + 3*(2 + 3*J(jj1) + Power(J(jj1),2))*sqrt((Power(1 - 2*J(jj1),2)*J(jj1)*(1 + 2*J(jj1)))/(3 + 5*J(jj1) + 2*Power(J(jj1),2))) - 5*sqrt((J(jj1)*(1 + 2*J(jj1)))/(3 + 5*J(jj1) + 2*Power(J(jj1),2)))*(2 + 7*J(jj1) + 7*Power(J(jj1),2) + 2*Power(J(jj1),3)) + 2*J(jj1)*sqrt((J(jj1)*(1 + 2*J(jj1)))/(3 + 5*J(jj1) + 2*Power(J(jj1),2)))*(2 + 7*J(jj1) + 7*Power(J(jj1),2) + 2*Power(J(jj1),3))))/(2.*(1 + 2*J(jj1))*Power(2 + 3*J(jj1) + Power(J(jj1),2),2))},
+{ 63, 61, Invar(-2 + q1, 3 + jj1), Invar(-2 + q1, 1 + jj1), sqrt(3)/((1 + J(jj1))*sqrt((1 + 2*J(jj1))*(3 + 2*J(jj1))))},
 { 63, 62, Invar(-2 + q1, 3 + jj1), Invar(-2 + q1, 3 + jj1), -((sqrt(3)*sqrt(1 + J(jj1))*(7*sqrt((5 + 2*J(jj1))/(3 + 2*J(jj1))) - 4*Power(J(jj1),3)*sqrt((5 + 2*J(jj1))/(3 + 2*J(jj1))) + sqrt(15 + 16*J(jj1) + 4*Power(J(jj1),2)) + 2*Power(J(jj1),2)*(-5*sqrt((5 + 2*J(jj1))/(3 + 2*J(jj1))) + sqrt(15 + 16*J(jj1) + 4*Power(J(jj1),2))) + J(jj1)*(-2*sqrt((5 + 2*J(jj1))/(3 + 2*J(jj1))) + 3*sqrt(15 + 16*J(jj1) + 4*Power(J(jj1),2)))))/(Power(5 + 2*J(jj1),1.5)*(2 + 3*J(jj1) + Power(J(jj1),2))))},
 { 63, 63, Invar(-2 + q1, 3 + jj1), Invar(-2 + q1, 5 + jj1), (sqrt((1 + J(jj1))*(1 + 2*J(jj1)))*(15*sqrt((2 + J(jj1))/(1 + 3*J(jj1) + 2*Power(J(jj1),2))) + 9*sqrt((2 + 5*J(jj1) + 2*Power(J(jj1),2))/(1 + J(jj1))) + 6*sqrt(2 + 7*J(jj1) + 7*Power(J(jj1),2) + 2*Power(J(jj1),3)) + J(jj1)*sqrt(2 + 7*J(jj1) + 7*Power(J(jj1),2) + 2*Power(J(jj1),3))))/(Power(2 + J(jj1),1.5)*(15 + 11*J(jj1) + 2*Power(J(jj1),2)))},
 { 64, 64, Invar(-3 + q1, jj1), Invar(-3 + q1, 2 + jj1), 1},
diff --git a/c++/symmetry/coefnew/qj/qj-triplets.dat b/c++/symmetry/coefnew/qj/qj-triplets.dat
index 1ada240..cc9f700 100644
--- a/c++/symmetry/coefnew/qj/qj-triplets.dat
+++ b/c++/symmetry/coefnew/qj/qj-triplets.dat
@@ -11,7 +11,7 @@
 { 6, 5, Invar(2 + q1, 1 + jj1), Invar(2 + q1, -1 + jj1), (3*sqrt((J(jj1)*(3 + 2*J(jj1)))/(1 + 2*J(jj1))) - 5*sqrt((Power(J(jj1),3)*(3 + 2*J(jj1)))/(1 + 2*J(jj1))) - 4*sqrt((Power(J(jj1),5)*(3 + 2*J(jj1)))/(1 + 2*J(jj1))) + 4*sqrt((Power(J(jj1),7)*(3 + 2*J(jj1)))/(1 + 2*J(jj1))) + sqrt(Power(J(jj1),3)*(3 + 8*J(jj1) + 4*Power(J(jj1),2))) - 2*sqrt(Power(J(jj1),5)*(3 + 8*J(jj1) + 4*Power(J(jj1),2))))/(J(jj1)*(3 + 2*J(jj1))*sqrt(J(jj1)*(-1 + J(jj1) + 2*Power(J(jj1),2))))},
 { 6, 6, Invar(2 + q1, 1 + jj1), Invar(2 + q1, 1 + jj1), -(sqrt(1 + J(jj1))*((3 - 2*J(jj1))*sqrt((J(jj1)*(1 + 2*J(jj1)))/(Power(1 + J(jj1),2)*Power(3 + 2*J(jj1),3))) - (4*(-3 + 4*J(jj1))*sqrt(J(jj1)/(3 + 8*J(jj1) + 4*Power(J(jj1),2))))/(3 + 5*J(jj1) + 2*Power(J(jj1),2)) + (9 - 18*J(jj1))/((3 + 5*J(jj1) + 2*Power(J(jj1),2))*sqrt(J(jj1)*(3 + 8*J(jj1) + 4*Power(J(jj1),2))))))},
 { 6, 7, Invar(2 + q1, 1 + jj1), Invar(2 + q1, 3 + jj1), sqrt(3)/sqrt((1 + J(jj1))*(3 + 2*J(jj1)))},
-{ 7, 6, Invar(2 + q1, 3 + jj1), Invar(2 + q1, 1 + jj1), -(sqrt(3)*sqrt((-1 + J(jj1) + 2*Power(J(jj1),2))/(2 + J(jj1)))*(9*sqrt((3 + 5*J(jj1) + 2*Power(J(jj1),2))/(-1 + 2*J(jj1))) + 20*J(jj1)*sqrt((3 + 5*J(jj1) + 2*Power(J(jj1),2))/(-1 + 2*J(jj1))) + 4*Power(J(jj1),2)*sqrt((3 + 5*J(jj1) + 2*Power(J(jj1),2))/(-1 + 2*J(jj1))) - 3*sqrt(-3 + J(jj1) + 8*Power(J(jj1),2) + 4*Power(J(jj1),3))))/(2.*Power(3 + 5*J(jj1) + 2*Power(J(jj1),2),2))},
+{ 7, 6, Invar(2 + q1, 3 + jj1), Invar(2 + q1, 1 + jj1), -((sqrt(3)*sqrt((2 + J(jj1))/(3 + 2*J(jj1))))/(1 + J(jj1)))},
 { 7, 7, Invar(2 + q1, 3 + jj1), Invar(2 + q1, 3 + jj1), sqrt(1 + J(jj1))*(9*sqrt((J(jj1)*Power(1 + 2*J(jj1),2))/(Power(3 + 2*J(jj1),3)*(5 + 2*J(jj1))*Power(2 + 3*J(jj1) + Power(J(jj1),2),2))) + ((1 + 2*J(jj1))*sqrt(J(jj1)/(15 + 16*J(jj1) + 4*Power(J(jj1),2))))/(2 + J(jj1)) + (6*(1 + 2*J(jj1))*sqrt(J(jj1)/(15 + 16*J(jj1) + 4*Power(J(jj1),2))))/(6 + 7*J(jj1) + 2*Power(J(jj1),2)) + (12*sqrt(J(jj1)/(15 + 16*J(jj1) + 4*Power(J(jj1),2))))/(6 + 13*J(jj1) + 9*Power(J(jj1),2) + 2*Power(J(jj1),3)))},
 { 8, 8, Invar(1 + q1, jj1), Invar(1 + q1, jj1), 1},
 { 9, 9, Invar(1 + q1, jj1), Invar(1 + q1, jj1), 1},
@@ -60,7 +60,7 @@
 { 27, 26, Invar(q1, 1 + jj1), Invar(q1, -1 + jj1), (3*sqrt((J(jj1)*(3 + 2*J(jj1)))/(1 + 2*J(jj1))) - 5*sqrt((Power(J(jj1),3)*(3 + 2*J(jj1)))/(1 + 2*J(jj1))) - 4*sqrt((Power(J(jj1),5)*(3 + 2*J(jj1)))/(1 + 2*J(jj1))) + 4*sqrt((Power(J(jj1),7)*(3 + 2*J(jj1)))/(1 + 2*J(jj1))) + sqrt(Power(J(jj1),3)*(3 + 8*J(jj1) + 4*Power(J(jj1),2))) - 2*sqrt(Power(J(jj1),5)*(3 + 8*J(jj1) + 4*Power(J(jj1),2))))/(J(jj1)*(3 + 2*J(jj1))*sqrt(J(jj1)*(-1 + J(jj1) + 2*Power(J(jj1),2))))},
 { 27, 27, Invar(q1, 1 + jj1), Invar(q1, 1 + jj1), -(sqrt(1 + J(jj1))*((3 - 2*J(jj1))*sqrt((J(jj1)*(1 + 2*J(jj1)))/(Power(1 + J(jj1),2)*Power(3 + 2*J(jj1),3))) - (4*(-3 + 4*J(jj1))*sqrt(J(jj1)/(3 + 8*J(jj1) + 4*Power(J(jj1),2))))/(3 + 5*J(jj1) + 2*Power(J(jj1),2)) + (9 - 18*J(jj1))/((3 + 5*J(jj1) + 2*Power(J(jj1),2))*sqrt(J(jj1)*(3 + 8*J(jj1) + 4*Power(J(jj1),2))))))},
 { 27, 28, Invar(q1, 1 + jj1), Invar(q1, 3 + jj1), sqrt(3)/sqrt((1 + J(jj1))*(3 + 2*J(jj1)))},
-{ 28, 27, Invar(q1, 3 + jj1), Invar(q1, 1 + jj1), -(sqrt(3)*sqrt((-1 + J(jj1) + 2*Power(J(jj1),2))/(2 + J(jj1)))*(9*sqrt((3 + 5*J(jj1) + 2*Power(J(jj1),2))/(-1 + 2*J(jj1))) + 20*J(jj1)*sqrt((3 + 5*J(jj1) + 2*Power(J(jj1),2))/(-1 + 2*J(jj1))) + 4*Power(J(jj1),2)*sqrt((3 + 5*J(jj1) + 2*Power(J(jj1),2))/(-1 + 2*J(jj1))) - 3*sqrt(-3 + J(jj1) + 8*Power(J(jj1),2) + 4*Power(J(jj1),3))))/(2.*Power(3 + 5*J(jj1) + 2*Power(J(jj1),2),2))},
+{ 28, 27, Invar(q1, 3 + jj1), Invar(q1, 1 + jj1), -((sqrt(3)*sqrt((2 + J(jj1))/(3 + 2*J(jj1))))/(1 + J(jj1)))},
 { 28, 28, Invar(q1, 3 + jj1), Invar(q1, 3 + jj1), sqrt(1 + J(jj1))*(9*sqrt((J(jj1)*Power(1 + 2*J(jj1),2))/(Power(3 + 2*J(jj1),3)*(5 + 2*J(jj1))*Power(2 + 3*J(jj1) + Power(J(jj1),2),2))) + ((1 + 2*J(jj1))*sqrt(J(jj1)/(15 + 16*J(jj1) + 4*Power(J(jj1),2))))/(2 + J(jj1)) + (6*(1 + 2*J(jj1))*sqrt(J(jj1)/(15 + 16*J(jj1) + 4*Power(J(jj1),2))))/(6 + 7*J(jj1) + 2*Power(J(jj1),2)) + (12*sqrt(J(jj1)/(15 + 16*J(jj1) + 4*Power(J(jj1),2))))/(6 + 13*J(jj1) + 9*Power(J(jj1),2) + 2*Power(J(jj1),3)))},
 { 29, 29, Invar(q1, -3 + jj1), Invar(q1, -3 + jj1), sqrt((3 + J(jj1) - 2*Power(J(jj1),2))/(J(jj1) - 2*Power(J(jj1),2)))},
 { 29, 30, Invar(q1, -3 + jj1), Invar(q1, -1 + jj1), (sqrt(3)*sqrt((-1 + J(jj1))/(-1 + 2*J(jj1))))/J(jj1)},
@@ -70,7 +70,7 @@
 { 31, 30, Invar(q1, 1 + jj1), Invar(q1, -1 + jj1), (3*sqrt((J(jj1)*(3 + 2*J(jj1)))/(1 + 2*J(jj1))) - 5*sqrt((Power(J(jj1),3)*(3 + 2*J(jj1)))/(1 + 2*J(jj1))) - 4*sqrt((Power(J(jj1),5)*(3 + 2*J(jj1)))/(1 + 2*J(jj1))) + 4*sqrt((Power(J(jj1),7)*(3 + 2*J(jj1)))/(1 + 2*J(jj1))) + sqrt(Power(J(jj1),3)*(3 + 8*J(jj1) + 4*Power(J(jj1),2))) - 2*sqrt(Power(J(jj1),5)*(3 + 8*J(jj1) + 4*Power(J(jj1),2))))/(J(jj1)*(3 + 2*J(jj1))*sqrt(J(jj1)*(-1 + J(jj1) + 2*Power(J(jj1),2))))},
 { 31, 31, Invar(q1, 1 + jj1), Invar(q1, 1 + jj1), -(sqrt(1 + J(jj1))*((3 - 2*J(jj1))*sqrt((J(jj1)*(1 + 2*J(jj1)))/(Power(1 + J(jj1),2)*Power(3 + 2*J(jj1),3))) - (4*(-3 + 4*J(jj1))*sqrt(J(jj1)/(3 + 8*J(jj1) + 4*Power(J(jj1),2))))/(3 + 5*J(jj1) + 2*Power(J(jj1),2)) + (9 - 18*J(jj1))/((3 + 5*J(jj1) + 2*Power(J(jj1),2))*sqrt(J(jj1)*(3 + 8*J(jj1) + 4*Power(J(jj1),2))))))},
 { 31, 32, Invar(q1, 1 + jj1), Invar(q1, 3 + jj1), sqrt(3)/sqrt((1 + J(jj1))*(3 + 2*J(jj1)))},
-{ 32, 31, Invar(q1, 3 + jj1), Invar(q1, 1 + jj1), -(sqrt(3)*sqrt((-1 + J(jj1) + 2*Power(J(jj1),2))/(2 + J(jj1)))*(9*sqrt((3 + 5*J(jj1) + 2*Power(J(jj1),2))/(-1 + 2*J(jj1))) + 20*J(jj1)*sqrt((3 + 5*J(jj1) + 2*Power(J(jj1),2))/(-1 + 2*J(jj1))) + 4*Power(J(jj1),2)*sqrt((3 + 5*J(jj1) + 2*Power(J(jj1),2))/(-1 + 2*J(jj1))) - 3*sqrt(-3 + J(jj1) + 8*Power(J(jj1),2) + 4*Power(J(jj1),3))))/(2.*Power(3 + 5*J(jj1) + 2*Power(J(jj1),2),2))},
+{ 32, 31, Invar(q1, 3 + jj1), Invar(q1, 1 + jj1), -((sqrt(3)*sqrt((2 + J(jj1))/(3 + 2*J(jj1))))/(1 + J(jj1)))},
 { 32, 32, Invar(q1, 3 + jj1), Invar(q1, 3 + jj1), sqrt(1 + J(jj1))*(9*sqrt((J(jj1)*Power(1 + 2*J(jj1),2))/(Power(3 + 2*J(jj1),3)*(5 + 2*J(jj1))*Power(2 + 3*J(jj1) + Power(J(jj1),2),2))) + ((1 + 2*J(jj1))*sqrt(J(jj1)/(15 + 16*J(jj1) + 4*Power(J(jj1),2))))/(2 + J(jj1)) + (6*(1 + 2*J(jj1))*sqrt(J(jj1)/(15 + 16*J(jj1) + 4*Power(J(jj1),2))))/(6 + 7*J(jj1) + 2*Power(J(jj1),2)) + (12*sqrt(J(jj1)/(15 + 16*J(jj1) + 4*Power(J(jj1),2))))/(6 + 13*J(jj1) + 9*Power(J(jj1),2) + 2*Power(J(jj1),3)))},
 { 33, 33, Invar(q1, -3 + jj1), Invar(q1, -3 + jj1), sqrt((3 + J(jj1) - 2*Power(J(jj1),2))/(J(jj1) - 2*Power(J(jj1),2)))},
 { 33, 34, Invar(q1, -3 + jj1), Invar(q1, -1 + jj1), (sqrt(3)*sqrt((-1 + J(jj1))/(-1 + 2*J(jj1))))/J(jj1)},
@@ -80,7 +80,7 @@
 { 35, 34, Invar(q1, 1 + jj1), Invar(q1, -1 + jj1), (3*sqrt((J(jj1)*(3 + 2*J(jj1)))/(1 + 2*J(jj1))) - 5*sqrt((Power(J(jj1),3)*(3 + 2*J(jj1)))/(1 + 2*J(jj1))) - 4*sqrt((Power(J(jj1),5)*(3 + 2*J(jj1)))/(1 + 2*J(jj1))) + 4*sqrt((Power(J(jj1),7)*(3 + 2*J(jj1)))/(1 + 2*J(jj1))) + sqrt(Power(J(jj1),3)*(3 + 8*J(jj1) + 4*Power(J(jj1),2))) - 2*sqrt(Power(J(jj1),5)*(3 + 8*J(jj1) + 4*Power(J(jj1),2))))/(J(jj1)*(3 + 2*J(jj1))*sqrt(J(jj1)*(-1 + J(jj1) + 2*Power(J(jj1),2))))},
 { 35, 35, Invar(q1, 1 + jj1), Invar(q1, 1 + jj1), -(sqrt(1 + J(jj1))*((3 - 2*J(jj1))*sqrt((J(jj1)*(1 + 2*J(jj1)))/(Power(1 + J(jj1),2)*Power(3 + 2*J(jj1),3))) - (4*(-3 + 4*J(jj1))*sqrt(J(jj1)/(3 + 8*J(jj1) + 4*Power(J(jj1),2))))/(3 + 5*J(jj1) + 2*Power(J(jj1),2)) + (9 - 18*J(jj1))/((3 + 5*J(jj1) + 2*Power(J(jj1),2))*sqrt(J(jj1)*(3 + 8*J(jj1) + 4*Power(J(jj1),2))))))},
 { 35, 36, Invar(q1, 1 + jj1), Invar(q1, 3 + jj1), sqrt(3)/sqrt((1 + J(jj1))*(3 + 2*J(jj1)))},
-{ 36, 35, Invar(q1, 3 + jj1), Invar(q1, 1 + jj1), -(sqrt(3)*sqrt((-1 + J(jj1) + 2*Power(J(jj1),2))/(2 + J(jj1)))*(9*sqrt((3 + 5*J(jj1) + 2*Power(J(jj1),2))/(-1 + 2*J(jj1))) + 20*J(jj1)*sqrt((3 + 5*J(jj1) + 2*Power(J(jj1),2))/(-1 + 2*J(jj1))) + 4*Power(J(jj1),2)*sqrt((3 + 5*J(jj1) + 2*Power(J(jj1),2))/(-1 + 2*J(jj1))) - 3*sqrt(-3 + J(jj1) + 8*Power(J(jj1),2) + 4*Power(J(jj1),3))))/(2.*Power(3 + 5*J(jj1) + 2*Power(J(jj1),2),2))},
+{ 36, 35, Invar(q1, 3 + jj1), Invar(q1, 1 + jj1), -((sqrt(3)*sqrt((2 + J(jj1))/(3 + 2*J(jj1))))/(1 + J(jj1)))},
 { 36, 36, Invar(q1, 3 + jj1), Invar(q1, 3 + jj1), sqrt(1 + J(jj1))*(9*sqrt((J(jj1)*Power(1 + 2*J(jj1),2))/(Power(3 + 2*J(jj1),3)*(5 + 2*J(jj1))*Power(2 + 3*J(jj1) + Power(J(jj1),2),2))) + ((1 + 2*J(jj1))*sqrt(J(jj1)/(15 + 16*J(jj1) + 4*Power(J(jj1),2))))/(2 + J(jj1)) + (6*(1 + 2*J(jj1))*sqrt(J(jj1)/(15 + 16*J(jj1) + 4*Power(J(jj1),2))))/(6 + 7*J(jj1) + 2*Power(J(jj1),2)) + (12*sqrt(J(jj1)/(15 + 16*J(jj1) + 4*Power(J(jj1),2))))/(6 + 13*J(jj1) + 9*Power(J(jj1),2) + 2*Power(J(jj1),3)))},
 { 37, 37, Invar(q1, -5 + jj1), Invar(q1, -5 + jj1), sqrt(((2 - 5/J(jj1))*(1 + J(jj1)))/(-3 + 2*J(jj1)))},
 { 37, 38, Invar(q1, -5 + jj1), Invar(q1, -3 + jj1), sqrt(5)*sqrt((-2 + J(jj1))/(J(jj1)*(3 - 5*J(jj1) + 2*Power(J(jj1),2))))},
@@ -145,6 +145,6 @@
 { 62, 61, Invar(-2 + q1, 1 + jj1), Invar(-2 + q1, -1 + jj1), (3*sqrt((J(jj1)*(3 + 2*J(jj1)))/(1 + 2*J(jj1))) - 5*sqrt((Power(J(jj1),3)*(3 + 2*J(jj1)))/(1 + 2*J(jj1))) - 4*sqrt((Power(J(jj1),5)*(3 + 2*J(jj1)))/(1 + 2*J(jj1))) + 4*sqrt((Power(J(jj1),7)*(3 + 2*J(jj1)))/(1 + 2*J(jj1))) + sqrt(Power(J(jj1),3)*(3 + 8*J(jj1) + 4*Power(J(jj1),2))) - 2*sqrt(Power(J(jj1),5)*(3 + 8*J(jj1) + 4*Power(J(jj1),2))))/(J(jj1)*(3 + 2*J(jj1))*sqrt(J(jj1)*(-1 + J(jj1) + 2*Power(J(jj1),2))))},
 { 62, 62, Invar(-2 + q1, 1 + jj1), Invar(-2 + q1, 1 + jj1), -(sqrt(1 + J(jj1))*((3 - 2*J(jj1))*sqrt((J(jj1)*(1 + 2*J(jj1)))/(Power(1 + J(jj1),2)*Power(3 + 2*J(jj1),3))) - (4*(-3 + 4*J(jj1))*sqrt(J(jj1)/(3 + 8*J(jj1) + 4*Power(J(jj1),2))))/(3 + 5*J(jj1) + 2*Power(J(jj1),2)) + (9 - 18*J(jj1))/((3 + 5*J(jj1) + 2*Power(J(jj1),2))*sqrt(J(jj1)*(3 + 8*J(jj1) + 4*Power(J(jj1),2))))))},
 { 62, 63, Invar(-2 + q1, 1 + jj1), Invar(-2 + q1, 3 + jj1), sqrt(3)/sqrt((1 + J(jj1))*(3 + 2*J(jj1)))},
-{ 63, 62, Invar(-2 + q1, 3 + jj1), Invar(-2 + q1, 1 + jj1), -(sqrt(3)*sqrt((-1 + J(jj1) + 2*Power(J(jj1),2))/(2 + J(jj1)))*(9*sqrt((3 + 5*J(jj1) + 2*Power(J(jj1),2))/(-1 + 2*J(jj1))) + 20*J(jj1)*sqrt((3 + 5*J(jj1) + 2*Power(J(jj1),2))/(-1 + 2*J(jj1))) + 4*Power(J(jj1),2)*sqrt((3 + 5*J(jj1) + 2*Power(J(jj1),2))/(-1 + 2*J(jj1))) - 3*sqrt(-3 + J(jj1) + 8*Power(J(jj1),2) + 4*Power(J(jj1),3))))/(2.*Power(3 + 5*J(jj1) + 2*Power(J(jj1),2),2))},
+{ 63, 62, Invar(-2 + q1, 3 + jj1), Invar(-2 + q1, 1 + jj1), -((sqrt(3)*sqrt((2 + J(jj1))/(3 + 2*J(jj1))))/(1 + J(jj1)))},
 { 63, 63, Invar(-2 + q1, 3 + jj1), Invar(-2 + q1, 3 + jj1), sqrt(1 + J(jj1))*(9*sqrt((J(jj1)*Power(1 + 2*J(jj1),2))/(Power(3 + 2*J(jj1),3)*(5 + 2*J(jj1))*Power(2 + 3*J(jj1) + Power(J(jj1),2),2))) + ((1 + 2*J(jj1))*sqrt(J(jj1)/(15 + 16*J(jj1) + 4*Power(J(jj1),2))))/(2 + J(jj1)) + (6*(1 + 2*J(jj1))*sqrt(J(jj1)/(15 + 16*J(jj1) + 4*Power(J(jj1),2))))/(6 + 7*J(jj1) + 2*Power(J(jj1),2)) + (12*sqrt(J(jj1)/(15 + 16*J(jj1) + 4*Power(J(jj1),2))))/(6 + 13*J(jj1) + 9*Power(J(jj1),2) + 2*Power(J(jj1),3)))},
 { 64, 64, Invar(-3 + q1, jj1), Invar(-3 + q1, jj1), 1},
diff --git a/c++/symmetry/coefnew/qs/qs-3ch-triplets.dat b/c++/symmetry/coefnew/qs/qs-3ch-triplets.dat
index 95a89bd..2ecb798 100644
--- a/c++/symmetry/coefnew/qs/qs-3ch-triplets.dat
+++ b/c++/symmetry/coefnew/qs/qs-3ch-triplets.dat
@@ -78,7 +78,7 @@
 { 41, 40, Invar(q1, 1 + ss1), Invar(q1, -1 + ss1), (-5*sqrt((Power(S(ss1),3)*(3 + 2*S(ss1)))/(1 + 2*S(ss1))) - 4*sqrt((Power(S(ss1),5)*(3 + 2*S(ss1)))/(1 + 2*S(ss1))) + 4*sqrt((Power(S(ss1),7)*(3 + 2*S(ss1)))/(1 + 2*S(ss1))) + sqrt(Power(S(ss1),3)*(3 + 4*S(ss1)*(2 + S(ss1)))) - 2*sqrt(Power(S(ss1),5)*(3 + 4*S(ss1)*(2 + S(ss1)))) + 3*sqrt(S(ss1) + (2*S(ss1))/(1 + 2*S(ss1))))/(S(ss1)*(3 + 2*S(ss1))*sqrt(S(ss1)*(-1 + S(ss1) + 2*Power(S(ss1),2))))},
 { 41, 41, Invar(q1, 1 + ss1), Invar(q1, 1 + ss1), (-3 + S(ss1)*(3 + 2*S(ss1)))/sqrt(S(ss1)*(1 + S(ss1))*(1 + 2*S(ss1))*(3 + 2*S(ss1)))},
 { 41, 42, Invar(q1, 1 + ss1), Invar(q1, 3 + ss1), sqrt(3)/sqrt((1 + S(ss1))*(3 + 2*S(ss1)))},
-{ 42, 41, Invar(q1, 3 + ss1), Invar(q1, 1 + ss1), -0.5*(sqrt(-9 + 6*S(ss1) + 15/(2 + S(ss1)))*(-3*sqrt(-3 + S(ss1) + 4*Power(S(ss1),2)*(2 + S(ss1))) + 9*sqrt(3 + S(ss1) + 6/(-1 + 2*S(ss1))) + 4*S(ss1)*(5 + S(ss1))*sqrt(3 + S(ss1) + 6/(-1 + 2*S(ss1)))))/(Power(1 + S(ss1),2)*Power(3 + 2*S(ss1),2))},
+{ 42, 41, Invar(q1, 3 + ss1), Invar(q1, 1 + ss1), -((sqrt(3)*sqrt((2 + S(ss1))/(3 + 2*S(ss1))))/(1 + S(ss1)))},
 { 42, 42, Invar(q1, 3 + ss1), Invar(q1, 3 + ss1), (5 + 2*S(ss1))/sqrt(((1 + S(ss1))*(3 + 2*S(ss1))*(5 + 2*S(ss1)))/S(ss1))},
 { 43, 43, Invar(-1 + q1, ss1), Invar(-1 + q1, ss1), 1},
 { 44, 44, Invar(-1 + q1, ss1), Invar(-1 + q1, ss1), 1},
diff --git a/c++/symmetry/coefnew/qs/qs-4ch-triplets.dat b/c++/symmetry/coefnew/qs/qs-4ch-triplets.dat
index 86c90f3..b149520 100644
--- a/c++/symmetry/coefnew/qs/qs-4ch-triplets.dat
+++ b/c++/symmetry/coefnew/qs/qs-4ch-triplets.dat
@@ -155,7 +155,7 @@
 { 80, 79, Invar(1 + q1, 1 + ss1), Invar(1 + q1, -1 + ss1), (-5*sqrt((Power(S(ss1),3)*(3 + 2*S(ss1)))/(1 + 2*S(ss1))) - 4*sqrt((Power(S(ss1),5)*(3 + 2*S(ss1)))/(1 + 2*S(ss1))) + 4*sqrt((Power(S(ss1),7)*(3 + 2*S(ss1)))/(1 + 2*S(ss1))) + sqrt(Power(S(ss1),3)*(3 + 4*S(ss1)*(2 + S(ss1)))) - 2*sqrt(Power(S(ss1),5)*(3 + 4*S(ss1)*(2 + S(ss1)))) + 3*sqrt(S(ss1) + (2*S(ss1))/(1 + 2*S(ss1))))/(S(ss1)*(3 + 2*S(ss1))*sqrt(S(ss1)*(-1 + S(ss1) + 2*Power(S(ss1),2))))},
 { 80, 80, Invar(1 + q1, 1 + ss1), Invar(1 + q1, 1 + ss1), (-3 + S(ss1)*(3 + 2*S(ss1)))/sqrt(S(ss1)*(1 + S(ss1))*(1 + 2*S(ss1))*(3 + 2*S(ss1)))},
 { 80, 81, Invar(1 + q1, 1 + ss1), Invar(1 + q1, 3 + ss1), sqrt(3)/sqrt((1 + S(ss1))*(3 + 2*S(ss1)))},
-{ 81, 80, Invar(1 + q1, 3 + ss1), Invar(1 + q1, 1 + ss1), -0.5*(sqrt(-9 + 6*S(ss1) + 15/(2 + S(ss1)))*(-3*sqrt(-3 + S(ss1) + 4*Power(S(ss1),2)*(2 + S(ss1))) + 9*sqrt(3 + S(ss1) + 6/(-1 + 2*S(ss1))) + 4*S(ss1)*(5 + S(ss1))*sqrt(3 + S(ss1) + 6/(-1 + 2*S(ss1)))))/(Power(1 + S(ss1),2)*Power(3 + 2*S(ss1),2))},
+{ 81, 80, Invar(1 + q1, 3 + ss1), Invar(1 + q1, 1 + ss1), -((sqrt(3)*sqrt((2 + S(ss1))/(3 + 2*S(ss1))))/(1 + S(ss1)))},
 { 81, 81, Invar(1 + q1, 3 + ss1), Invar(1 + q1, 3 + ss1), (5 + 2*S(ss1))/sqrt(((1 + S(ss1))*(3 + 2*S(ss1))*(5 + 2*S(ss1)))/S(ss1))},
 { 82, 82, Invar(1 + q1, -3 + ss1), Invar(1 + q1, -3 + ss1), sqrt(1 + 6/(1 - 2*S(ss1)) + 3/S(ss1))},
 { 82, 83, Invar(1 + q1, -3 + ss1), Invar(1 + q1, -1 + ss1), (sqrt(3)*sqrt((-1 + S(ss1))/(-1 + 2*S(ss1))))/S(ss1)},
@@ -165,7 +165,7 @@
 { 84, 83, Invar(1 + q1, 1 + ss1), Invar(1 + q1, -1 + ss1), (-5*sqrt((Power(S(ss1),3)*(3 + 2*S(ss1)))/(1 + 2*S(ss1))) - 4*sqrt((Power(S(ss1),5)*(3 + 2*S(ss1)))/(1 + 2*S(ss1))) + 4*sqrt((Power(S(ss1),7)*(3 + 2*S(ss1)))/(1 + 2*S(ss1))) + sqrt(Power(S(ss1),3)*(3 + 4*S(ss1)*(2 + S(ss1)))) - 2*sqrt(Power(S(ss1),5)*(3 + 4*S(ss1)*(2 + S(ss1)))) + 3*sqrt(S(ss1) + (2*S(ss1))/(1 + 2*S(ss1))))/(S(ss1)*(3 + 2*S(ss1))*sqrt(S(ss1)*(-1 + S(ss1) + 2*Power(S(ss1),2))))},
 { 84, 84, Invar(1 + q1, 1 + ss1), Invar(1 + q1, 1 + ss1), (-3 + S(ss1)*(3 + 2*S(ss1)))/sqrt(S(ss1)*(1 + S(ss1))*(1 + 2*S(ss1))*(3 + 2*S(ss1)))},
 { 84, 85, Invar(1 + q1, 1 + ss1), Invar(1 + q1, 3 + ss1), sqrt(3)/sqrt((1 + S(ss1))*(3 + 2*S(ss1)))},
-{ 85, 84, Invar(1 + q1, 3 + ss1), Invar(1 + q1, 1 + ss1), -0.5*(sqrt(-9 + 6*S(ss1) + 15/(2 + S(ss1)))*(-3*sqrt(-3 + S(ss1) + 4*Power(S(ss1),2)*(2 + S(ss1))) + 9*sqrt(3 + S(ss1) + 6/(-1 + 2*S(ss1))) + 4*S(ss1)*(5 + S(ss1))*sqrt(3 + S(ss1) + 6/(-1 + 2*S(ss1)))))/(Power(1 + S(ss1),2)*Power(3 + 2*S(ss1),2))},
+{ 85, 84, Invar(1 + q1, 3 + ss1), Invar(1 + q1, 1 + ss1), -((sqrt(3)*sqrt((2 + S(ss1))/(3 + 2*S(ss1))))/(1 + S(ss1)))},
 { 85, 85, Invar(1 + q1, 3 + ss1), Invar(1 + q1, 3 + ss1), (5 + 2*S(ss1))/sqrt(((1 + S(ss1))*(3 + 2*S(ss1))*(5 + 2*S(ss1)))/S(ss1))},
 { 86, 86, Invar(1 + q1, -3 + ss1), Invar(1 + q1, -3 + ss1), sqrt(1 + 6/(1 - 2*S(ss1)) + 3/S(ss1))},
 { 86, 87, Invar(1 + q1, -3 + ss1), Invar(1 + q1, -1 + ss1), (sqrt(3)*sqrt((-1 + S(ss1))/(-1 + 2*S(ss1))))/S(ss1)},
@@ -175,7 +175,7 @@
 { 88, 87, Invar(1 + q1, 1 + ss1), Invar(1 + q1, -1 + ss1), (-5*sqrt((Power(S(ss1),3)*(3 + 2*S(ss1)))/(1 + 2*S(ss1))) - 4*sqrt((Power(S(ss1),5)*(3 + 2*S(ss1)))/(1 + 2*S(ss1))) + 4*sqrt((Power(S(ss1),7)*(3 + 2*S(ss1)))/(1 + 2*S(ss1))) + sqrt(Power(S(ss1),3)*(3 + 4*S(ss1)*(2 + S(ss1)))) - 2*sqrt(Power(S(ss1),5)*(3 + 4*S(ss1)*(2 + S(ss1)))) + 3*sqrt(S(ss1) + (2*S(ss1))/(1 + 2*S(ss1))))/(S(ss1)*(3 + 2*S(ss1))*sqrt(S(ss1)*(-1 + S(ss1) + 2*Power(S(ss1),2))))},
 { 88, 88, Invar(1 + q1, 1 + ss1), Invar(1 + q1, 1 + ss1), (-3 + S(ss1)*(3 + 2*S(ss1)))/sqrt(S(ss1)*(1 + S(ss1))*(1 + 2*S(ss1))*(3 + 2*S(ss1)))},
 { 88, 89, Invar(1 + q1, 1 + ss1), Invar(1 + q1, 3 + ss1), sqrt(3)/sqrt((1 + S(ss1))*(3 + 2*S(ss1)))},
-{ 89, 88, Invar(1 + q1, 3 + ss1), Invar(1 + q1, 1 + ss1), -0.5*(sqrt(-9 + 6*S(ss1) + 15/(2 + S(ss1)))*(-3*sqrt(-3 + S(ss1) + 4*Power(S(ss1),2)*(2 + S(ss1))) + 9*sqrt(3 + S(ss1) + 6/(-1 + 2*S(ss1))) + 4*S(ss1)*(5 + S(ss1))*sqrt(3 + S(ss1) + 6/(-1 + 2*S(ss1)))))/(Power(1 + S(ss1),2)*Power(3 + 2*S(ss1),2))},
+{ 89, 88, Invar(1 + q1, 3 + ss1), Invar(1 + q1, 1 + ss1), -((sqrt(3)*sqrt((2 + S(ss1))/(3 + 2*S(ss1))))/(1 + S(ss1)))},
 { 89, 89, Invar(1 + q1, 3 + ss1), Invar(1 + q1, 3 + ss1), (5 + 2*S(ss1))/sqrt(((1 + S(ss1))*(3 + 2*S(ss1))*(5 + 2*S(ss1)))/S(ss1))},
 { 90, 90, Invar(1 + q1, -3 + ss1), Invar(1 + q1, -3 + ss1), sqrt(1 + 6/(1 - 2*S(ss1)) + 3/S(ss1))},
 { 90, 91, Invar(1 + q1, -3 + ss1), Invar(1 + q1, -1 + ss1), (sqrt(3)*sqrt((-1 + S(ss1))/(-1 + 2*S(ss1))))/S(ss1)},
@@ -185,7 +185,7 @@
 { 92, 91, Invar(1 + q1, 1 + ss1), Invar(1 + q1, -1 + ss1), (-5*sqrt((Power(S(ss1),3)*(3 + 2*S(ss1)))/(1 + 2*S(ss1))) - 4*sqrt((Power(S(ss1),5)*(3 + 2*S(ss1)))/(1 + 2*S(ss1))) + 4*sqrt((Power(S(ss1),7)*(3 + 2*S(ss1)))/(1 + 2*S(ss1))) + sqrt(Power(S(ss1),3)*(3 + 4*S(ss1)*(2 + S(ss1)))) - 2*sqrt(Power(S(ss1),5)*(3 + 4*S(ss1)*(2 + S(ss1)))) + 3*sqrt(S(ss1) + (2*S(ss1))/(1 + 2*S(ss1))))/(S(ss1)*(3 + 2*S(ss1))*sqrt(S(ss1)*(-1 + S(ss1) + 2*Power(S(ss1),2))))},
 { 92, 92, Invar(1 + q1, 1 + ss1), Invar(1 + q1, 1 + ss1), (-3 + S(ss1)*(3 + 2*S(ss1)))/sqrt(S(ss1)*(1 + S(ss1))*(1 + 2*S(ss1))*(3 + 2*S(ss1)))},
 { 92, 93, Invar(1 + q1, 1 + ss1), Invar(1 + q1, 3 + ss1), sqrt(3)/sqrt((1 + S(ss1))*(3 + 2*S(ss1)))},
-{ 93, 92, Invar(1 + q1, 3 + ss1), Invar(1 + q1, 1 + ss1), -0.5*(sqrt(-9 + 6*S(ss1) + 15/(2 + S(ss1)))*(-3*sqrt(-3 + S(ss1) + 4*Power(S(ss1),2)*(2 + S(ss1))) + 9*sqrt(3 + S(ss1) + 6/(-1 + 2*S(ss1))) + 4*S(ss1)*(5 + S(ss1))*sqrt(3 + S(ss1) + 6/(-1 + 2*S(ss1)))))/(Power(1 + S(ss1),2)*Power(3 + 2*S(ss1),2))},
+{ 93, 92, Invar(1 + q1, 3 + ss1), Invar(1 + q1, 1 + ss1), -((sqrt(3)*sqrt((2 + S(ss1))/(3 + 2*S(ss1))))/(1 + S(ss1)))},
 { 93, 93, Invar(1 + q1, 3 + ss1), Invar(1 + q1, 3 + ss1), (5 + 2*S(ss1))/sqrt(((1 + S(ss1))*(3 + 2*S(ss1))*(5 + 2*S(ss1)))/S(ss1))},
 { 94, 94, Invar(q1, ss1), Invar(q1, ss1), 1},
 { 95, 95, Invar(q1, ss1), Invar(q1, ss1), 1},
@@ -413,7 +413,7 @@
 { 206, 205, Invar(-1 + q1, 1 + ss1), Invar(-1 + q1, -1 + ss1), (-5*sqrt((Power(S(ss1),3)*(3 + 2*S(ss1)))/(1 + 2*S(ss1))) - 4*sqrt((Power(S(ss1),5)*(3 + 2*S(ss1)))/(1 + 2*S(ss1))) + 4*sqrt((Power(S(ss1),7)*(3 + 2*S(ss1)))/(1 + 2*S(ss1))) + sqrt(Power(S(ss1),3)*(3 + 4*S(ss1)*(2 + S(ss1)))) - 2*sqrt(Power(S(ss1),5)*(3 + 4*S(ss1)*(2 + S(ss1)))) + 3*sqrt(S(ss1) + (2*S(ss1))/(1 + 2*S(ss1))))/(S(ss1)*(3 + 2*S(ss1))*sqrt(S(ss1)*(-1 + S(ss1) + 2*Power(S(ss1),2))))},
 { 206, 206, Invar(-1 + q1, 1 + ss1), Invar(-1 + q1, 1 + ss1), (-3 + S(ss1)*(3 + 2*S(ss1)))/sqrt(S(ss1)*(1 + S(ss1))*(1 + 2*S(ss1))*(3 + 2*S(ss1)))},
 { 206, 207, Invar(-1 + q1, 1 + ss1), Invar(-1 + q1, 3 + ss1), sqrt(3)/sqrt((1 + S(ss1))*(3 + 2*S(ss1)))},
-{ 207, 206, Invar(-1 + q1, 3 + ss1), Invar(-1 + q1, 1 + ss1), -0.5*(sqrt(-9 + 6*S(ss1) + 15/(2 + S(ss1)))*(-3*sqrt(-3 + S(ss1) + 4*Power(S(ss1),2)*(2 + S(ss1))) + 9*sqrt(3 + S(ss1) + 6/(-1 + 2*S(ss1))) + 4*S(ss1)*(5 + S(ss1))*sqrt(3 + S(ss1) + 6/(-1 + 2*S(ss1)))))/(Power(1 + S(ss1),2)*Power(3 + 2*S(ss1),2))},
+{ 207, 206, Invar(-1 + q1, 3 + ss1), Invar(-1 + q1, 1 + ss1), -((sqrt(3)*sqrt((2 + S(ss1))/(3 + 2*S(ss1))))/(1 + S(ss1)))},
 { 207, 207, Invar(-1 + q1, 3 + ss1), Invar(-1 + q1, 3 + ss1), (5 + 2*S(ss1))/sqrt(((1 + S(ss1))*(3 + 2*S(ss1))*(5 + 2*S(ss1)))/S(ss1))},
 { 208, 208, Invar(-1 + q1, -3 + ss1), Invar(-1 + q1, -3 + ss1), sqrt(1 + 6/(1 - 2*S(ss1)) + 3/S(ss1))},
 { 208, 209, Invar(-1 + q1, -3 + ss1), Invar(-1 + q1, -1 + ss1), (sqrt(3)*sqrt((-1 + S(ss1))/(-1 + 2*S(ss1))))/S(ss1)},
@@ -423,7 +423,7 @@
 { 210, 209, Invar(-1 + q1, 1 + ss1), Invar(-1 + q1, -1 + ss1), (-5*sqrt((Power(S(ss1),3)*(3 + 2*S(ss1)))/(1 + 2*S(ss1))) - 4*sqrt((Power(S(ss1),5)*(3 + 2*S(ss1)))/(1 + 2*S(ss1))) + 4*sqrt((Power(S(ss1),7)*(3 + 2*S(ss1)))/(1 + 2*S(ss1))) + sqrt(Power(S(ss1),3)*(3 + 4*S(ss1)*(2 + S(ss1)))) - 2*sqrt(Power(S(ss1),5)*(3 + 4*S(ss1)*(2 + S(ss1)))) + 3*sqrt(S(ss1) + (2*S(ss1))/(1 + 2*S(ss1))))/(S(ss1)*(3 + 2*S(ss1))*sqrt(S(ss1)*(-1 + S(ss1) + 2*Power(S(ss1),2))))},
 { 210, 210, Invar(-1 + q1, 1 + ss1), Invar(-1 + q1, 1 + ss1), (-3 + S(ss1)*(3 + 2*S(ss1)))/sqrt(S(ss1)*(1 + S(ss1))*(1 + 2*S(ss1))*(3 + 2*S(ss1)))},
 { 210, 211, Invar(-1 + q1, 1 + ss1), Invar(-1 + q1, 3 + ss1), sqrt(3)/sqrt((1 + S(ss1))*(3 + 2*S(ss1)))},
-{ 211, 210, Invar(-1 + q1, 3 + ss1), Invar(-1 + q1, 1 + ss1), -0.5*(sqrt(-9 + 6*S(ss1) + 15/(2 + S(ss1)))*(-3*sqrt(-3 + S(ss1) + 4*Power(S(ss1),2)*(2 + S(ss1))) + 9*sqrt(3 + S(ss1) + 6/(-1 + 2*S(ss1))) + 4*S(ss1)*(5 + S(ss1))*sqrt(3 + S(ss1) + 6/(-1 + 2*S(ss1)))))/(Power(1 + S(ss1),2)*Power(3 + 2*S(ss1),2))},
+{ 211, 210, Invar(-1 + q1, 3 + ss1), Invar(-1 + q1, 1 + ss1), -((sqrt(3)*sqrt((2 + S(ss1))/(3 + 2*S(ss1))))/(1 + S(ss1)))},
 { 211, 211, Invar(-1 + q1, 3 + ss1), Invar(-1 + q1, 3 + ss1), (5 + 2*S(ss1))/sqrt(((1 + S(ss1))*(3 + 2*S(ss1))*(5 + 2*S(ss1)))/S(ss1))},
 { 212, 212, Invar(-1 + q1, -3 + ss1), Invar(-1 + q1, -3 + ss1), sqrt(1 + 6/(1 - 2*S(ss1)) + 3/S(ss1))},
 { 212, 213, Invar(-1 + q1, -3 + ss1), Invar(-1 + q1, -1 + ss1), (sqrt(3)*sqrt((-1 + S(ss1))/(-1 + 2*S(ss1))))/S(ss1)},
@@ -433,7 +433,7 @@
 { 214, 213, Invar(-1 + q1, 1 + ss1), Invar(-1 + q1, -1 + ss1), (-5*sqrt((Power(S(ss1),3)*(3 + 2*S(ss1)))/(1 + 2*S(ss1))) - 4*sqrt((Power(S(ss1),5)*(3 + 2*S(ss1)))/(1 + 2*S(ss1))) + 4*sqrt((Power(S(ss1),7)*(3 + 2*S(ss1)))/(1 + 2*S(ss1))) + sqrt(Power(S(ss1),3)*(3 + 4*S(ss1)*(2 + S(ss1)))) - 2*sqrt(Power(S(ss1),5)*(3 + 4*S(ss1)*(2 + S(ss1)))) + 3*sqrt(S(ss1) + (2*S(ss1))/(1 + 2*S(ss1))))/(S(ss1)*(3 + 2*S(ss1))*sqrt(S(ss1)*(-1 + S(ss1) + 2*Power(S(ss1),2))))},
 { 214, 214, Invar(-1 + q1, 1 + ss1), Invar(-1 + q1, 1 + ss1), (-3 + S(ss1)*(3 + 2*S(ss1)))/sqrt(S(ss1)*(1 + S(ss1))*(1 + 2*S(ss1))*(3 + 2*S(ss1)))},
 { 214, 215, Invar(-1 + q1, 1 + ss1), Invar(-1 + q1, 3 + ss1), sqrt(3)/sqrt((1 + S(ss1))*(3 + 2*S(ss1)))},
-{ 215, 214, Invar(-1 + q1, 3 + ss1), Invar(-1 + q1, 1 + ss1), -0.5*(sqrt(-9 + 6*S(ss1) + 15/(2 + S(ss1)))*(-3*sqrt(-3 + S(ss1) + 4*Power(S(ss1),2)*(2 + S(ss1))) + 9*sqrt(3 + S(ss1) + 6/(-1 + 2*S(ss1))) + 4*S(ss1)*(5 + S(ss1))*sqrt(3 + S(ss1) + 6/(-1 + 2*S(ss1)))))/(Power(1 + S(ss1),2)*Power(3 + 2*S(ss1),2))},
+{ 215, 214, Invar(-1 + q1, 3 + ss1), Invar(-1 + q1, 1 + ss1), -((sqrt(3)*sqrt((2 + S(ss1))/(3 + 2*S(ss1))))/(1 + S(ss1)))},
 { 215, 215, Invar(-1 + q1, 3 + ss1), Invar(-1 + q1, 3 + ss1), (5 + 2*S(ss1))/sqrt(((1 + S(ss1))*(3 + 2*S(ss1))*(5 + 2*S(ss1)))/S(ss1))},
 { 216, 216, Invar(-1 + q1, -3 + ss1), Invar(-1 + q1, -3 + ss1), sqrt(1 + 6/(1 - 2*S(ss1)) + 3/S(ss1))},
 { 216, 217, Invar(-1 + q1, -3 + ss1), Invar(-1 + q1, -1 + ss1), (sqrt(3)*sqrt((-1 + S(ss1))/(-1 + 2*S(ss1))))/S(ss1)},
@@ -443,7 +443,7 @@
 { 218, 217, Invar(-1 + q1, 1 + ss1), Invar(-1 + q1, -1 + ss1), (-5*sqrt((Power(S(ss1),3)*(3 + 2*S(ss1)))/(1 + 2*S(ss1))) - 4*sqrt((Power(S(ss1),5)*(3 + 2*S(ss1)))/(1 + 2*S(ss1))) + 4*sqrt((Power(S(ss1),7)*(3 + 2*S(ss1)))/(1 + 2*S(ss1))) + sqrt(Power(S(ss1),3)*(3 + 4*S(ss1)*(2 + S(ss1)))) - 2*sqrt(Power(S(ss1),5)*(3 + 4*S(ss1)*(2 + S(ss1)))) + 3*sqrt(S(ss1) + (2*S(ss1))/(1 + 2*S(ss1))))/(S(ss1)*(3 + 2*S(ss1))*sqrt(S(ss1)*(-1 + S(ss1) + 2*Power(S(ss1),2))))},
 { 218, 218, Invar(-1 + q1, 1 + ss1), Invar(-1 + q1, 1 + ss1), (-3 + S(ss1)*(3 + 2*S(ss1)))/sqrt(S(ss1)*(1 + S(ss1))*(1 + 2*S(ss1))*(3 + 2*S(ss1)))},
 { 218, 219, Invar(-1 + q1, 1 + ss1), Invar(-1 + q1, 3 + ss1), sqrt(3)/sqrt((1 + S(ss1))*(3 + 2*S(ss1)))},
-{ 219, 218, Invar(-1 + q1, 3 + ss1), Invar(-1 + q1, 1 + ss1), -0.5*(sqrt(-9 + 6*S(ss1) + 15/(2 + S(ss1)))*(-3*sqrt(-3 + S(ss1) + 4*Power(S(ss1),2)*(2 + S(ss1))) + 9*sqrt(3 + S(ss1) + 6/(-1 + 2*S(ss1))) + 4*S(ss1)*(5 + S(ss1))*sqrt(3 + S(ss1) + 6/(-1 + 2*S(ss1)))))/(Power(1 + S(ss1),2)*Power(3 + 2*S(ss1),2))},
+{ 219, 218, Invar(-1 + q1, 3 + ss1), Invar(-1 + q1, 1 + ss1), -((sqrt(3)*sqrt((2 + S(ss1))/(3 + 2*S(ss1))))/(1 + S(ss1)))},
 { 219, 219, Invar(-1 + q1, 3 + ss1), Invar(-1 + q1, 3 + ss1), (5 + 2*S(ss1))/sqrt(((1 + S(ss1))*(3 + 2*S(ss1))*(5 + 2*S(ss1)))/S(ss1))},
 { 220, 220, Invar(-2 + q1, ss1), Invar(-2 + q1, ss1), 1},
 { 221, 221, Invar(-2 + q1, ss1), Invar(-2 + q1, ss1), 1},
diff --git a/c++/symmetry/coefnew/qstz/qstz-tripletp.dat b/c++/symmetry/coefnew/qstz/qstz-tripletp.dat
index f4d49b4..c423d36 100644
--- a/c++/symmetry/coefnew/qstz/qstz-tripletp.dat
+++ b/c++/symmetry/coefnew/qstz/qstz-tripletp.dat
@@ -62,7 +62,7 @@
 { 41, 39, Invar(q1, 1 + ss1, tz1), Invar(q1, -1 + ss1, tz1), sqrt(3)/(sqrt(S(ss1)*(1 + S(ss1)))*(1 + 2*S(ss1)))},
 { 41, 40, Invar(q1, 1 + ss1, tz1), Invar(q1, 1 + ss1, tz1), (-4*sqrt(S(ss1)*(2 + S(ss1))*(3 + 5*S(ss1) + 2*Power(S(ss1),2))))/((1 + S(ss1))*(3 + 8*S(ss1) + 4*Power(S(ss1),2)))},
 { 41, 41, Invar(q1, 1 + ss1, tz1), Invar(q1, 3 + ss1, tz1), ((5 + 2*S(ss1))*sqrt((S(ss1)*(1 + S(ss1)))/(15 + 16*S(ss1) + 4*Power(S(ss1),2))))/(1 + S(ss1))},
-{ 42, 40, Invar(q1, 3 + ss1, tz1), Invar(q1, 1 + ss1, tz1), (sqrt(3)*sqrt(S(ss1)*(1 + S(ss1)))*(sqrt((Power(2 + S(ss1),2)*(3 + 2*S(ss1))*Power(1 + 3*S(ss1) + 2*Power(S(ss1),2),3))/S(ss1)) - 4*Power(1 + S(ss1),1.5)*sqrt((S(ss1)*(1 + 2*S(ss1)))/(3 + 2*S(ss1)))*(2 + 5*S(ss1) + 2*Power(S(ss1),2)) + (Power(1 + S(ss1),1.5)*(2 + 5*S(ss1) + 2*Power(S(ss1),2)))/sqrt((S(ss1)*(3 + 2*S(ss1)))/(1 + 2*S(ss1))) + 3*(2 + 3*S(ss1) + Power(S(ss1),2))*sqrt((Power(1 - 2*S(ss1),2)*S(ss1)*(1 + 2*S(ss1)))/(3 + 5*S(ss1) + 2*Power(S(ss1),2))) - 5*sqrt((S(ss1)*(1 + 2*S(ss1)))/(3 + 5*S(ss1) + 2*Power(S(ss1),2)))*(2 + 7*S(ss1) + 7*Power(S(ss1),2) + 2*Power(S(ss1),3)) + 2*S(ss1)*sqrt((S(ss1)*(1 + 2*S(ss1)))/(3 + 5*S(ss1) + 2*Power(S(ss1),2)))*(2 + 7*S(ss1) + 7*Power(S(ss1),2) + 2*Power(S(ss1),3))))/(2.*(1 + 2*S(ss1))*Power(2 + 3*S(ss1) + Power(S(ss1),2),2))},
+{ 42, 40, Invar(q1, 3 + ss1, tz1), Invar(q1, 1 + ss1, tz1), sqrt(3)/((1 + S(ss1))*sqrt((1 + 2*S(ss1))*(3 + 2*S(ss1))))},
 { 42, 41, Invar(q1, 3 + ss1, tz1), Invar(q1, 3 + ss1, tz1), -((sqrt(3)*sqrt(1 + S(ss1))*(7*sqrt((5 + 2*S(ss1))/(3 + 2*S(ss1))) - 4*Power(S(ss1),3)*sqrt((5 + 2*S(ss1))/(3 + 2*S(ss1))) + sqrt(15 + 16*S(ss1) + 4*Power(S(ss1),2)) + 2*Power(S(ss1),2)*(-5*sqrt((5 + 2*S(ss1))/(3 + 2*S(ss1))) + sqrt(15 + 16*S(ss1) + 4*Power(S(ss1),2))) + S(ss1)*(-2*sqrt((5 + 2*S(ss1))/(3 + 2*S(ss1))) + 3*sqrt(15 + 16*S(ss1) + 4*Power(S(ss1),2)))))/(Power(5 + 2*S(ss1),1.5)*(2 + 3*S(ss1) + Power(S(ss1),2))))},
 { 42, 42, Invar(q1, 3 + ss1, tz1), Invar(q1, 5 + ss1, tz1), (sqrt((1 + S(ss1))*(1 + 2*S(ss1)))*(15*sqrt((2 + S(ss1))/(1 + 3*S(ss1) + 2*Power(S(ss1),2))) + 9*sqrt((2 + 5*S(ss1) + 2*Power(S(ss1),2))/(1 + S(ss1))) + 6*sqrt(2 + 7*S(ss1) + 7*Power(S(ss1),2) + 2*Power(S(ss1),3)) + S(ss1)*sqrt(2 + 7*S(ss1) + 7*Power(S(ss1),2) + 2*Power(S(ss1),3))))/(Power(2 + S(ss1),1.5)*(15 + 11*S(ss1) + 2*Power(S(ss1),2)))},
 { 43, 43, Invar(-1 + q1, ss1, 2 + tz1), Invar(-1 + q1, 2 + ss1, 2 + tz1), 1},
diff --git a/c++/symmetry/coefnew/qstz/qstz-triplets.dat b/c++/symmetry/coefnew/qstz/qstz-triplets.dat
index ca3d0df..3b8a896 100644
--- a/c++/symmetry/coefnew/qstz/qstz-triplets.dat
+++ b/c++/symmetry/coefnew/qstz/qstz-triplets.dat
@@ -22,21 +22,21 @@
 { 15, 14, Invar(1 + q1, ss1, 1 + tz1), Invar(1 + q1, -2 + ss1, 1 + tz1), -(1/S(ss1))},
 { 15, 15, Invar(1 + q1, ss1, 1 + tz1), Invar(1 + q1, ss1, 1 + tz1), (-1 + S(ss1) + Power(S(ss1),2))/(S(ss1)*(1 + S(ss1)))},
 { 15, 16, Invar(1 + q1, ss1, 1 + tz1), Invar(1 + q1, 2 + ss1, 1 + tz1), 1/(1 + S(ss1))},
-{ 16, 15, Invar(1 + q1, 2 + ss1, 1 + tz1), Invar(1 + q1, ss1, 1 + tz1), (sqrt((-1 + 2*S(ss1))/(3 + 2*S(ss1)))*(sqrt((-1 + 2*S(ss1))/(1 + 3*S(ss1) + 2*Power(S(ss1),2))) + S(ss1)*sqrt((-1 + 2*S(ss1))/(1 + 3*S(ss1) + 2*Power(S(ss1),2))) - 2*sqrt((1 + 3*S(ss1) + 2*Power(S(ss1),2))/(-1 + 2*S(ss1)))))/Power(1 + S(ss1),1.5)},
+{ 16, 15, Invar(1 + q1, 2 + ss1, 1 + tz1), Invar(1 + q1, ss1, 1 + tz1), -(sqrt(3 + 4*S(ss1)*(2 + S(ss1)))/((1 + S(ss1))*(1 + 2*S(ss1))))},
 { 16, 16, Invar(1 + q1, 2 + ss1, 1 + tz1), Invar(1 + q1, 2 + ss1, 1 + tz1), -(sqrt(1 + S(ss1))*(-2*sqrt((S(ss1)*Power(1 + 2*S(ss1),2))/(Power(1 + S(ss1),3)*(2 + S(ss1))*Power(3 + 2*S(ss1),2))) - ((1 + 2*S(ss1))*sqrt(S(ss1)/(2 + 3*S(ss1) + Power(S(ss1),2))))/(3 + 2*S(ss1)) - (3*sqrt(S(ss1)/(2 + 3*S(ss1) + Power(S(ss1),2))))/(3 + 5*S(ss1) + 2*Power(S(ss1),2))))},
 { 17, 17, Invar(1 + q1, -2 + ss1, tz1), Invar(1 + q1, -2 + ss1, tz1), sqrt(-1 + Power(S(ss1),2))/S(ss1)},
 { 17, 18, Invar(1 + q1, -2 + ss1, tz1), Invar(1 + q1, ss1, tz1), sqrt((-1 + 2*S(ss1))/(1 + 2*S(ss1)))/S(ss1)},
 { 18, 17, Invar(1 + q1, ss1, tz1), Invar(1 + q1, -2 + ss1, tz1), -(1/S(ss1))},
 { 18, 18, Invar(1 + q1, ss1, tz1), Invar(1 + q1, ss1, tz1), (-1 + S(ss1) + Power(S(ss1),2))/(S(ss1)*(1 + S(ss1)))},
 { 18, 19, Invar(1 + q1, ss1, tz1), Invar(1 + q1, 2 + ss1, tz1), 1/(1 + S(ss1))},
-{ 19, 18, Invar(1 + q1, 2 + ss1, tz1), Invar(1 + q1, ss1, tz1), (sqrt((-1 + 2*S(ss1))/(3 + 2*S(ss1)))*(sqrt((-1 + 2*S(ss1))/(1 + 3*S(ss1) + 2*Power(S(ss1),2))) + S(ss1)*sqrt((-1 + 2*S(ss1))/(1 + 3*S(ss1) + 2*Power(S(ss1),2))) - 2*sqrt((1 + 3*S(ss1) + 2*Power(S(ss1),2))/(-1 + 2*S(ss1)))))/Power(1 + S(ss1),1.5)},
+{ 19, 18, Invar(1 + q1, 2 + ss1, tz1), Invar(1 + q1, ss1, tz1), -(sqrt(3 + 4*S(ss1)*(2 + S(ss1)))/((1 + S(ss1))*(1 + 2*S(ss1))))},
 { 19, 19, Invar(1 + q1, 2 + ss1, tz1), Invar(1 + q1, 2 + ss1, tz1), -(sqrt(1 + S(ss1))*(-2*sqrt((S(ss1)*Power(1 + 2*S(ss1),2))/(Power(1 + S(ss1),3)*(2 + S(ss1))*Power(3 + 2*S(ss1),2))) - ((1 + 2*S(ss1))*sqrt(S(ss1)/(2 + 3*S(ss1) + Power(S(ss1),2))))/(3 + 2*S(ss1)) - (3*sqrt(S(ss1)/(2 + 3*S(ss1) + Power(S(ss1),2))))/(3 + 5*S(ss1) + 2*Power(S(ss1),2))))},
 { 20, 20, Invar(1 + q1, -2 + ss1, -1 + tz1), Invar(1 + q1, -2 + ss1, -1 + tz1), sqrt(-1 + Power(S(ss1),2))/S(ss1)},
 { 20, 21, Invar(1 + q1, -2 + ss1, -1 + tz1), Invar(1 + q1, ss1, -1 + tz1), sqrt((-1 + 2*S(ss1))/(1 + 2*S(ss1)))/S(ss1)},
 { 21, 20, Invar(1 + q1, ss1, -1 + tz1), Invar(1 + q1, -2 + ss1, -1 + tz1), -(1/S(ss1))},
 { 21, 21, Invar(1 + q1, ss1, -1 + tz1), Invar(1 + q1, ss1, -1 + tz1), (-1 + S(ss1) + Power(S(ss1),2))/(S(ss1)*(1 + S(ss1)))},
 { 21, 22, Invar(1 + q1, ss1, -1 + tz1), Invar(1 + q1, 2 + ss1, -1 + tz1), 1/(1 + S(ss1))},
-{ 22, 21, Invar(1 + q1, 2 + ss1, -1 + tz1), Invar(1 + q1, ss1, -1 + tz1), (sqrt((-1 + 2*S(ss1))/(3 + 2*S(ss1)))*(sqrt((-1 + 2*S(ss1))/(1 + 3*S(ss1) + 2*Power(S(ss1),2))) + S(ss1)*sqrt((-1 + 2*S(ss1))/(1 + 3*S(ss1) + 2*Power(S(ss1),2))) - 2*sqrt((1 + 3*S(ss1) + 2*Power(S(ss1),2))/(-1 + 2*S(ss1)))))/Power(1 + S(ss1),1.5)},
+{ 22, 21, Invar(1 + q1, 2 + ss1, -1 + tz1), Invar(1 + q1, ss1, -1 + tz1), -(sqrt(3 + 4*S(ss1)*(2 + S(ss1)))/((1 + S(ss1))*(1 + 2*S(ss1))))},
 { 22, 22, Invar(1 + q1, 2 + ss1, -1 + tz1), Invar(1 + q1, 2 + ss1, -1 + tz1), -(sqrt(1 + S(ss1))*(-2*sqrt((S(ss1)*Power(1 + 2*S(ss1),2))/(Power(1 + S(ss1),3)*(2 + S(ss1))*Power(3 + 2*S(ss1),2))) - ((1 + 2*S(ss1))*sqrt(S(ss1)/(2 + 3*S(ss1) + Power(S(ss1),2))))/(3 + 2*S(ss1)) - (3*sqrt(S(ss1)/(2 + 3*S(ss1) + Power(S(ss1),2))))/(3 + 5*S(ss1) + 2*Power(S(ss1),2))))},
 { 23, 23, Invar(q1, -1 + ss1, 2 + tz1), Invar(q1, -1 + ss1, 2 + tz1), sqrt((-1 + S(ss1) + 2*Power(S(ss1),2))/(S(ss1)*(1 + 2*S(ss1))))},
 { 23, 24, Invar(q1, -1 + ss1, 2 + tz1), Invar(q1, 1 + ss1, 2 + tz1), 1/sqrt(1 + 3*S(ss1) + 2*Power(S(ss1),2))},
@@ -78,7 +78,7 @@
 { 41, 40, Invar(q1, 1 + ss1, tz1), Invar(q1, -1 + ss1, tz1), (3*sqrt((S(ss1)*(3 + 2*S(ss1)))/(1 + 2*S(ss1))) - 5*sqrt((Power(S(ss1),3)*(3 + 2*S(ss1)))/(1 + 2*S(ss1))) - 4*sqrt((Power(S(ss1),5)*(3 + 2*S(ss1)))/(1 + 2*S(ss1))) + 4*sqrt((Power(S(ss1),7)*(3 + 2*S(ss1)))/(1 + 2*S(ss1))) + sqrt(Power(S(ss1),3)*(3 + 8*S(ss1) + 4*Power(S(ss1),2))) - 2*sqrt(Power(S(ss1),5)*(3 + 8*S(ss1) + 4*Power(S(ss1),2))))/(S(ss1)*(3 + 2*S(ss1))*sqrt(S(ss1)*(-1 + S(ss1) + 2*Power(S(ss1),2))))},
 { 41, 41, Invar(q1, 1 + ss1, tz1), Invar(q1, 1 + ss1, tz1), -(sqrt(1 + S(ss1))*((3 - 2*S(ss1))*sqrt((S(ss1)*(1 + 2*S(ss1)))/(Power(1 + S(ss1),2)*Power(3 + 2*S(ss1),3))) - (4*(-3 + 4*S(ss1))*sqrt(S(ss1)/(3 + 8*S(ss1) + 4*Power(S(ss1),2))))/(3 + 5*S(ss1) + 2*Power(S(ss1),2)) + (9 - 18*S(ss1))/((3 + 5*S(ss1) + 2*Power(S(ss1),2))*sqrt(S(ss1)*(3 + 8*S(ss1) + 4*Power(S(ss1),2))))))},
 { 41, 42, Invar(q1, 1 + ss1, tz1), Invar(q1, 3 + ss1, tz1), sqrt(3)/sqrt((1 + S(ss1))*(3 + 2*S(ss1)))},
-{ 42, 41, Invar(q1, 3 + ss1, tz1), Invar(q1, 1 + ss1, tz1), -0.5*(sqrt(3)*sqrt((-1 + S(ss1) + 2*Power(S(ss1),2))/(2 + S(ss1)))*(9*sqrt((3 + 5*S(ss1) + 2*Power(S(ss1),2))/(-1 + 2*S(ss1))) + 20*S(ss1)*sqrt((3 + 5*S(ss1) + 2*Power(S(ss1),2))/(-1 + 2*S(ss1))) + 4*Power(S(ss1),2)*sqrt((3 + 5*S(ss1) + 2*Power(S(ss1),2))/(-1 + 2*S(ss1))) - 3*sqrt(-3 + S(ss1) + 8*Power(S(ss1),2) + 4*Power(S(ss1),3))))/Power(3 + 5*S(ss1) + 2*Power(S(ss1),2),2)},
+{ 42, 41, Invar(q1, 3 + ss1, tz1), Invar(q1, 1 + ss1, tz1), -((sqrt(3)*sqrt((2 + S(ss1))/(3 + 2*S(ss1))))/(1 + S(ss1)))},
 { 42, 42, Invar(q1, 3 + ss1, tz1), Invar(q1, 3 + ss1, tz1), -0.5*(sqrt(1 + S(ss1))*(-18*sqrt((S(ss1)*Power(1 + 2*S(ss1),2))/(Power(3 + 2*S(ss1),3)*(5 + 2*S(ss1))*Power(2 + 3*S(ss1) + Power(S(ss1),2),2))) - (2*(1 + 2*S(ss1))*sqrt(S(ss1)/(15 + 16*S(ss1) + 4*Power(S(ss1),2))))/(2 + S(ss1)) - (12*(1 + 2*S(ss1))*sqrt(S(ss1)/(15 + 16*S(ss1) + 4*Power(S(ss1),2))))/(6 + 7*S(ss1) + 2*Power(S(ss1),2)) - (24*sqrt(S(ss1)/(15 + 16*S(ss1) + 4*Power(S(ss1),2))))/(6 + 13*S(ss1) + 9*Power(S(ss1),2) + 2*Power(S(ss1),3))))},
 { 43, 43, Invar(-1 + q1, ss1, 2 + tz1), Invar(-1 + q1, ss1, 2 + tz1), 1},
 { 44, 44, Invar(-1 + q1, ss1, 1 + tz1), Invar(-1 + q1, ss1, 1 + tz1), 1},
@@ -91,21 +91,21 @@
 { 50, 49, Invar(-1 + q1, ss1, 1 + tz1), Invar(-1 + q1, -2 + ss1, 1 + tz1), -(1/S(ss1))},
 { 50, 50, Invar(-1 + q1, ss1, 1 + tz1), Invar(-1 + q1, ss1, 1 + tz1), (-1 + S(ss1) + Power(S(ss1),2))/(S(ss1)*(1 + S(ss1)))},
 { 50, 51, Invar(-1 + q1, ss1, 1 + tz1), Invar(-1 + q1, 2 + ss1, 1 + tz1), 1/(1 + S(ss1))},
-{ 51, 50, Invar(-1 + q1, 2 + ss1, 1 + tz1), Invar(-1 + q1, ss1, 1 + tz1), (sqrt((-1 + 2*S(ss1))/(3 + 2*S(ss1)))*(sqrt((-1 + 2*S(ss1))/(1 + 3*S(ss1) + 2*Power(S(ss1),2))) + S(ss1)*sqrt((-1 + 2*S(ss1))/(1 + 3*S(ss1) + 2*Power(S(ss1),2))) - 2*sqrt((1 + 3*S(ss1) + 2*Power(S(ss1),2))/(-1 + 2*S(ss1)))))/Power(1 + S(ss1),1.5)},
+{ 51, 50, Invar(-1 + q1, 2 + ss1, 1 + tz1), Invar(-1 + q1, ss1, 1 + tz1), -(sqrt(3 + 4*S(ss1)*(2 + S(ss1)))/((1 + S(ss1))*(1 + 2*S(ss1))))},
 { 51, 51, Invar(-1 + q1, 2 + ss1, 1 + tz1), Invar(-1 + q1, 2 + ss1, 1 + tz1), -(sqrt(1 + S(ss1))*(-2*sqrt((S(ss1)*Power(1 + 2*S(ss1),2))/(Power(1 + S(ss1),3)*(2 + S(ss1))*Power(3 + 2*S(ss1),2))) - ((1 + 2*S(ss1))*sqrt(S(ss1)/(2 + 3*S(ss1) + Power(S(ss1),2))))/(3 + 2*S(ss1)) - (3*sqrt(S(ss1)/(2 + 3*S(ss1) + Power(S(ss1),2))))/(3 + 5*S(ss1) + 2*Power(S(ss1),2))))},
 { 52, 52, Invar(-1 + q1, -2 + ss1, tz1), Invar(-1 + q1, -2 + ss1, tz1), sqrt(-1 + Power(S(ss1),2))/S(ss1)},
 { 52, 53, Invar(-1 + q1, -2 + ss1, tz1), Invar(-1 + q1, ss1, tz1), sqrt((-1 + 2*S(ss1))/(1 + 2*S(ss1)))/S(ss1)},
 { 53, 52, Invar(-1 + q1, ss1, tz1), Invar(-1 + q1, -2 + ss1, tz1), -(1/S(ss1))},
 { 53, 53, Invar(-1 + q1, ss1, tz1), Invar(-1 + q1, ss1, tz1), (-1 + S(ss1) + Power(S(ss1),2))/(S(ss1)*(1 + S(ss1)))},
 { 53, 54, Invar(-1 + q1, ss1, tz1), Invar(-1 + q1, 2 + ss1, tz1), 1/(1 + S(ss1))},
-{ 54, 53, Invar(-1 + q1, 2 + ss1, tz1), Invar(-1 + q1, ss1, tz1), (sqrt((-1 + 2*S(ss1))/(3 + 2*S(ss1)))*(sqrt((-1 + 2*S(ss1))/(1 + 3*S(ss1) + 2*Power(S(ss1),2))) + S(ss1)*sqrt((-1 + 2*S(ss1))/(1 + 3*S(ss1) + 2*Power(S(ss1),2))) - 2*sqrt((1 + 3*S(ss1) + 2*Power(S(ss1),2))/(-1 + 2*S(ss1)))))/Power(1 + S(ss1),1.5)},
+{ 54, 53, Invar(-1 + q1, 2 + ss1, tz1), Invar(-1 + q1, ss1, tz1), -(sqrt(3 + 4*S(ss1)*(2 + S(ss1)))/((1 + S(ss1))*(1 + 2*S(ss1))))},
 { 54, 54, Invar(-1 + q1, 2 + ss1, tz1), Invar(-1 + q1, 2 + ss1, tz1), -(sqrt(1 + S(ss1))*(-2*sqrt((S(ss1)*Power(1 + 2*S(ss1),2))/(Power(1 + S(ss1),3)*(2 + S(ss1))*Power(3 + 2*S(ss1),2))) - ((1 + 2*S(ss1))*sqrt(S(ss1)/(2 + 3*S(ss1) + Power(S(ss1),2))))/(3 + 2*S(ss1)) - (3*sqrt(S(ss1)/(2 + 3*S(ss1) + Power(S(ss1),2))))/(3 + 5*S(ss1) + 2*Power(S(ss1),2))))},
 { 55, 55, Invar(-1 + q1, -2 + ss1, -1 + tz1), Invar(-1 + q1, -2 + ss1, -1 + tz1), sqrt(-1 + Power(S(ss1),2))/S(ss1)},
 { 55, 56, Invar(-1 + q1, -2 + ss1, -1 + tz1), Invar(-1 + q1, ss1, -1 + tz1), sqrt((-1 + 2*S(ss1))/(1 + 2*S(ss1)))/S(ss1)},
 { 56, 55, Invar(-1 + q1, ss1, -1 + tz1), Invar(-1 + q1, -2 + ss1, -1 + tz1), -(1/S(ss1))},
 { 56, 56, Invar(-1 + q1, ss1, -1 + tz1), Invar(-1 + q1, ss1, -1 + tz1), (-1 + S(ss1) + Power(S(ss1),2))/(S(ss1)*(1 + S(ss1)))},
 { 56, 57, Invar(-1 + q1, ss1, -1 + tz1), Invar(-1 + q1, 2 + ss1, -1 + tz1), 1/(1 + S(ss1))},
-{ 57, 56, Invar(-1 + q1, 2 + ss1, -1 + tz1), Invar(-1 + q1, ss1, -1 + tz1), (sqrt((-1 + 2*S(ss1))/(3 + 2*S(ss1)))*(sqrt((-1 + 2*S(ss1))/(1 + 3*S(ss1) + 2*Power(S(ss1),2))) + S(ss1)*sqrt((-1 + 2*S(ss1))/(1 + 3*S(ss1) + 2*Power(S(ss1),2))) - 2*sqrt((1 + 3*S(ss1) + 2*Power(S(ss1),2))/(-1 + 2*S(ss1)))))/Power(1 + S(ss1),1.5)},
+{ 57, 56, Invar(-1 + q1, 2 + ss1, -1 + tz1), Invar(-1 + q1, ss1, -1 + tz1), -(sqrt(3 + 4*S(ss1)*(2 + S(ss1)))/((1 + S(ss1))*(1 + 2*S(ss1))))},
 { 57, 57, Invar(-1 + q1, 2 + ss1, -1 + tz1), Invar(-1 + q1, 2 + ss1, -1 + tz1), -(sqrt(1 + S(ss1))*(-2*sqrt((S(ss1)*Power(1 + 2*S(ss1),2))/(Power(1 + S(ss1),3)*(2 + S(ss1))*Power(3 + 2*S(ss1),2))) - ((1 + 2*S(ss1))*sqrt(S(ss1)/(2 + 3*S(ss1) + Power(S(ss1),2))))/(3 + 2*S(ss1)) - (3*sqrt(S(ss1)/(2 + 3*S(ss1) + Power(S(ss1),2))))/(3 + 5*S(ss1) + 2*Power(S(ss1),2))))},
 { 58, 58, Invar(-2 + q1, -1 + ss1, 1 + tz1), Invar(-2 + q1, -1 + ss1, 1 + tz1), sqrt((-1 + S(ss1) + 2*Power(S(ss1),2))/(S(ss1)*(1 + 2*S(ss1))))},
 { 58, 59, Invar(-2 + q1, -1 + ss1, 1 + tz1), Invar(-2 + q1, 1 + ss1, 1 + tz1), 1/sqrt(1 + 3*S(ss1) + 2*Power(S(ss1),2))},
diff --git a/c++/symmetry/coefnew/spsu2t/spsu2t-doubletm+1.dat b/c++/symmetry/coefnew/spsu2t/spsu2t-doubletm+1.dat
index dc9f7a0..99f2839 100644
--- a/c++/symmetry/coefnew/spsu2t/spsu2t-doubletm+1.dat
+++ b/c++/symmetry/coefnew/spsu2t/spsu2t-doubletm+1.dat
@@ -102,7 +102,7 @@
 { 37, 36, Invar(-1 + ss1, 2 + t1), Invar(-2 + ss1, 2 + t1), sqrt(2)/sqrt((1 + T)*(2 + T))},
 { 37, 37, Invar(-1 + ss1, 2 + t1), Invar(-2 + ss1, 3 + t1), -1},
 { 37, 40, Invar(-1 + ss1, 2 + t1), Invar(ss1, 1 + t1), -(sqrt(6)/((1 + 2*S(ss1))*sqrt((1 + T)*(6 + 19*T + 16*Power(T,2) + 4*Power(T,3)))))},
-{ 37, 41, Invar(-1 + ss1, 2 + t1), Invar(ss1, 2 + t1), -((sqrt((2 + 4*S(ss1))*T*(3 + 8*T + 4*Power(T,2)))*((-3*Power(1 + T,1.5)*(3 + T)*(10 + 9*T + 2*Power(T,2)))/sqrt((T*(6 + 5*T + Power(T,2)))/(3 + 8*T + 4*Power(T,2))) + (T*Power(1 + T,1.5)*(3 + T)*(10 + 9*T + 2*Power(T,2)))/sqrt((T*(6 + 5*T + Power(T,2)))/(3 + 8*T + 4*Power(T,2))) - (5 + 2*T)*Power(2 + 3*T + Power(T,2),1.5)*sqrt(27 + 9/T + 20*T + 4*Power(T,2)) - (6*(30 + 37*T + 15*Power(T,2) + 2*Power(T,3)))/sqrt((T*(18 + 27*T + 13*Power(T,2) + 2*Power(T,3)))/(1 + 3*T + 2*Power(T,2))) + (18*T*(30 + 37*T + 15*Power(T,2) + 2*Power(T,3)))/sqrt((T*(18 + 27*T + 13*Power(T,2) + 2*Power(T,3)))/(1 + 3*T + 2*Power(T,2))) - 9*(3 + T)*(10 + 19*T + 11*Power(T,2) + 2*Power(T,3))*sqrt((1 + 3*T + 2*Power(T,2))/(18*T + 27*Power(T,2) + 13*Power(T,3) + 2*Power(T,4))) + 9*T*(3 + T)*(10 + 19*T + 11*Power(T,2) + 2*Power(T,3))*sqrt((1 + 3*T + 2*Power(T,2))/(18*T + 27*Power(T,2) + 13*Power(T,3) + 2*Power(T,4))) + 30*(30 + 37*T + 15*Power(T,2) + 2*Power(T,3))*sqrt((T*(1 + T))/(18 + 63*T + 67*Power(T,2) + 28*Power(T,3) + 4*Power(T,4)))))/((1 + T)*Power((1 + 2*S(ss1))*(3 + T),1.5)*Power(10 + 9*T + 2*Power(T,2),2)))},
+{ 37, 41, Invar(-1 + ss1, 2 + t1), Invar(ss1, 2 + t1), sqrt(2/((1 + T)*(2 + T)))/(1 + 2*S(ss1))},
 { 37, 42, Invar(-1 + ss1, 2 + t1), Invar(ss1, 3 + t1), 1/(-1 - 2*S(ss1))},
 { 38, 38, Invar(1 + ss1, -2 + t1), Invar(ss1, -1 + t1), (-2*sqrt((S(ss1)*(1 + S(ss1))*(-9 + 4*Power(T,2)))/(-1 + 4*Power(T,2))))/(1 + 2*S(ss1))},
 { 39, 38, Invar(1 + ss1, -1 + t1), Invar(ss1, -1 + t1), (-2*sqrt(2)*sqrt((1 + 2*S(ss1))*(3 + 5*T + 2*Power(T,2)))*(2*sqrt((Power(S(ss1),3)*(1 + T))/(T*(1 + 2*T))) + sqrt((Power(S(ss1),5)*(1 + T))/(T*(1 + 2*T))) - sqrt((S(ss1)*T*(1 + T))/(1 + 2*T)) - 2*sqrt((Power(S(ss1),3)*T*(1 + T))/(1 + 2*T)) - sqrt((Power(S(ss1),5)*T*(1 + T))/(1 + 2*T)) + sqrt((S(ss1) + S(ss1)*T)/(T + 2*Power(T,2)))))/((-1 + T)*Power((1 + S(ss1))*(1 + 2*S(ss1))*(1 + T),1.5))},
-- 
2.43.0


From 6bd927e75e49332f19d02f191a1b561cf5f25ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:15 +0000
Subject: [PATCH 44/49] fix: saving the Hamiltonian (h5ham) aborted the run
 when a partial diagonalisation was restarted

---
 c++/core.hpp |  3 ++-
 c++/h5.hpp   | 10 +++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/c++/core.hpp b/c++/core.hpp
index b70f638..fb8bea6 100644
--- a/c++/core.hpp
+++ b/c++/core.hpp
@@ -97,7 +97,8 @@ auto hamiltonian(const Step &step, const Invar &I, const Opch<S> &opch, const Co
 #if NRG_ENABLE_APP_OPENMP
 #pragma omp critical(nrgljubljana_h5raw)
 #endif
-    h5_dump_matrix(*output.h5raw, std::to_string(step.ndx()+1) + "/hamiltonian/" + I.name() + "/matrix", h);
+    h5_dump_matrix(*output.h5raw, std::to_string(step.ndx()+1) + "/hamiltonian/" + I.name() + "/matrix", h,
+                   H5Easy::DumpMode::Overwrite); // the Hamiltonian is built again if the step is restarted (partial diagonalisation)
   }
   return h;
 }
diff --git a/c++/h5.hpp b/c++/h5.hpp
index 57b5e8e..4af2342 100644
--- a/c++/h5.hpp
+++ b/c++/h5.hpp
@@ -32,16 +32,16 @@ namespace NRG {
    }
 
    template <real_Eigen_matrix REM>
-   void h5_dump_matrix(H5Easy::File &file, const std::string &path, const REM &m) {
-     H5Easy::dump(file, path, m);
+   void h5_dump_matrix(H5Easy::File &file, const std::string &path, const REM &m, const H5Easy::DumpMode mode = H5Easy::DumpMode::Create) {
+     H5Easy::dump(file, path, m, mode);
    }
 
   template <complex_Eigen_matrix CEM>
-  void h5_dump_matrix(H5Easy::File &file, const std::string &path, const CEM &m) {
+  void h5_dump_matrix(H5Easy::File &file, const std::string &path, const CEM &m, const H5Easy::DumpMode mode = H5Easy::DumpMode::Create) {
     EigenMatrix<double> mr = m.real();
-    h5_dump_matrix(file, path, mr);
+    h5_dump_matrix(file, path, mr, mode);
     EigenMatrix<double> mi = m.imag();
-    h5_dump_matrix(file, path + "-imag", mi);
+    h5_dump_matrix(file, path + "-imag", mi, mode);
   }
 }
 
-- 
2.43.0


From bb2109d02fabed30ef8c4f91613ba52255f02e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:40 +0000
Subject: [PATCH 45/49] fix: tdavg reads past the end of a row that holds only
 the temperature

---
 tools/tdavg/tdavg.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/tdavg/tdavg.cc b/tools/tdavg/tdavg.cc
index b25e12b..4379ffa 100644
--- a/tools/tdavg/tdavg.cc
+++ b/tools/tdavg/tdavg.cc
@@ -157,6 +157,10 @@ DataType load(const string &filename) {
         cerr << "Error parsing line: " << line << endl;
         exit(1);
       }
+      if (elements.size() < 2) {
+        cerr << "Too few columns in line: " << endl << line << endl;
+        exit(1);
+      }
       if (columns == 0) {
         columns = elements.size() - 1;
       } else {
-- 
2.43.0


From 15532247e3474f880c56a17ad5b7979c81f005cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:40 +0000
Subject: [PATCH 46/49] fix: hilb crashes on a density of states with fewer
 than three points

---
 tools/hilb/hilb.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/hilb/hilb.hpp b/tools/hilb/hilb.hpp
index 80f3039..3fcc01e 100644
--- a/tools/hilb/hilb.hpp
+++ b/tools/hilb/hilb.hpp
@@ -135,6 +135,7 @@ class interpolator {
     assert(X.size() == Y.size());
     acc.reset(gsl_interp_accel_alloc());
     len    = X.size();
+    if (len < gsl_interp_type_min_size(gsl_interp_cspline)) throw std::runtime_error("Too few data points for interpolation.");
     spline.reset(gsl_spline_alloc(gsl_interp_cspline, len));
     gsl_spline_init(spline.get(), X.data(), Y.data(), len);
     Xmin = X.front();
-- 
2.43.0


From b945502576b082585d873b3297699b14d2cf5f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:45 +0000
Subject: [PATCH 47/49] fix: C_fdm lost all accuracy at low temperatures
 (variance of the total energy instead of the excitation energy)

---
 c++/measurements.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c++/measurements.hpp b/c++/measurements.hpp
index d6d101a..3a77d23 100644
--- a/c++/measurements.hpp
+++ b/c++/measurements.hpp
@@ -132,7 +132,7 @@ void fdm_thermodynamics(const ThermoStore<S> &store, Stats<S> &stats, const Symm
           mpf_set_d(weight, stats.wn[N] * Sym->mult(I) * exp(-ds.eig.values.abs_zero(i)/T));
           mpf_div(weight, weight, stats.ZnDN[N]);
           my_mpf e;
-          mpf_set_d(e, ds.eig.values.abs_T(i));
+          mpf_set_d(e, ds.eig.values.abs_G(i)); // relative to the ground state, to avoid cancellation in the variance
           my_mpf e2;
           mpf_mul(e2, e, e);
           mpf_mul(e, e, weight);
@@ -140,13 +140,13 @@ void fdm_thermodynamics(const ThermoStore<S> &store, Stats<S> &stats, const Symm
           mpf_add(E, E, e);
           mpf_add(E2, E2, e2);
         }
-  stats.E_fdm = mpf_get_d(E);
+  stats.E_fdm = mpf_get_d(E) + stats.GS_energy;
   my_mpf sqrE;
   mpf_mul(sqrE, E, E);
   my_mpf varE;
   mpf_sub(varE, E2, sqrE);
   stats.C_fdm = mpf_get_d(varE)/pow(T,2);
-  stats.S_fdm = (stats.E_fdm-stats.F_fdm)/T;
+  stats.S_fdm = mpf_get_d(E)/T + log(stats.ZZG);
   std::cout << std::endl;
   std::cout << "Z_fdm=" << HIGHPREC(stats.Z_fdm) << std::endl;
   std::cout << "F_fdm=" << HIGHPREC(stats.F_fdm) << std::endl;
-- 
2.43.0


From 6a852295f2472dc4bb0a32abb4af32f5cc9f802f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:47 +0000
Subject: [PATCH 48/49] fix: matrix reads past the end of the table of
 hybridisation matrices when there are no channels

---
 tools/matrix/parser.cc | 1 +
 tools/matrix/parser.yy | 1 +
 2 files changed, 2 insertions(+)

diff --git a/tools/matrix/parser.cc b/tools/matrix/parser.cc
index 0e20ef0..ae1b375 100644
--- a/tools/matrix/parser.cc
+++ b/tools/matrix/parser.cc
@@ -2153,6 +2153,7 @@ double coefkappa(int ch, int i)
 double coefV(int i, int j)
 {
   const int ch = 1;
+  require(ch <= V.size());
   require(1 <= i && i <= V[ch-1].size());
   require(1 <= j && j <= V[ch-1][i-1].size());
   return V[ch-1][i-1][j-1];
diff --git a/tools/matrix/parser.yy b/tools/matrix/parser.yy
index a5759d0..4bf4d19 100644
--- a/tools/matrix/parser.yy
+++ b/tools/matrix/parser.yy
@@ -552,6 +552,7 @@ double coefkappa(int ch, int i)
 double coefV(int i, int j)
 {
   const int ch = 1;
+  require(ch <= V.size());
   require(1 <= i && i <= V[ch-1].size());
   require(1 <= j && j <= V[ch-1][i-1].size());
   return V[ch-1][i-1][j-1];
-- 
2.43.0


From 1e44cab29efb851a93052c396625801810346a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:59 +0000
Subject: [PATCH 49/49] fix: nrgchain dies with a floating-point exception on
 coefficient tables that are not finite

---
 tools/nrgchain/nrgchain.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/nrgchain/nrgchain.cc b/tools/nrgchain/nrgchain.cc
index ac47218..0b528e2 100644
--- a/tools/nrgchain/nrgchain.cc
+++ b/tools/nrgchain/nrgchain.cc
@@ -375,6 +375,9 @@ void fix_norm(vmpf &up, vmpf &um, unsigned int mMAX_) {
 
 void tridiag() {
   if (Nmax > 2 * mMAX) throw std::invalid_argument("Nmax too large for the number of discretization intervals (mMAX).");
+  for (const auto *table : {&de_pos, &de_neg, &du_pos, &du_neg})
+    for (const auto x : *table)
+      if (!std::isfinite(x)) throw std::runtime_error("Coefficient tables contain values that are not finite.");
 
   ofstream XI, ZETA;
   safe_open(XI, "xi.dat");     // hopping constants
-- 
2.43.0

