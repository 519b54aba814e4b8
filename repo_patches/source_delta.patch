From 0bc8b89318bb0aca4ea2fcf74c6f69bf2963e96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 01/46] fix: widen every part of a signal above 32 bits before
 shifting it

A byte shifted by 25..31 (or by 24 with its upper bit set) was evaluated in
int, so signals wider than 32 bits lost or sign-extended that part on Unpack.
---
 src/codegen/c-sigprinter.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index 3ea51cd..8ef29bf 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -16,6 +16,13 @@ static inline int32_t ShiftByte(const SignalDescriptor_t* sig, int32_t bn)
   return (sig->Order == BitLayout::kIntel) ? (bn - 1) : (bn + 1);
 }
 
+/// @brief Tests if the part of the signal shifted to its place does not fit to (int) and
+/// has to be widened first, otherwise its bits are lost or spoil upper part of the signal
+static inline bool NeedWideShift(const SignalDescriptor_t* sig, int32_t width, int32_t shift)
+{
+  return (sig->LengthBit > 32) && (shift + width > 31);
+}
+
 CSigPrinter::CSigPrinter()
 {
   sigs_expr.clear();
@@ -232,7 +239,7 @@ std::string CSigPrinter::PrintSignalExpr(const SignalDescriptor_t* sig, std::vec
     std::string t64 = "";
     slen -= bbc;
 
-    if (slen > 31)
+    if (NeedWideShift(sig, bbc, slen))
     {
       t64 = "(uint64_t)";
     }
@@ -273,7 +280,7 @@ std::string CSigPrinter::PrintSignalExpr(const SignalDescriptor_t* sig, std::vec
       }
       else
       {
-        if (slen > 31)
+        if (NeedWideShift(sig, 8, slen))
         {
           t64 = "(uint64_t)";
         }
-- 
2.43.0


From a7ff912b99e4cebd50258504476960443fc4bbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 02/46] fix: build the sign mask of __ext_sig__ in ubitext_t

1u << (bits - 1) is evaluated in unsigned int, so signed signals wider than
32 bits were never sign-extended, even with 64-bit (u)bitext_t as documented.
---
 src/codegen/c-main-generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index dc9c5ae..d92716f 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -27,7 +27,7 @@ const char* extend_func_body =
   "// Defined these typedefs in @dbccodeconf.h or locally in 'dbcdrvname'-config.h\n"
   "static bitext_t %s(ubitext_t val, uint8_t bits)\n"
   "{\n"
-  "  ubitext_t const m = (ubitext_t) (1u << (bits - 1u));\n"
+  "  ubitext_t const m = ((ubitext_t) 1u) << (bits - 1u);\n"
   "  return ((val ^ m) - m);\n"
   "}\n\n";
 
-- 
2.43.0


From f3c24e1d7d76b411296570d2124364ca6f9c1e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:48 +0000
Subject: [PATCH 03/46] fix: take every message into account for the maximum
 DLC value

The last message of the file (and the last one before BO_TX_BU_) was never
compared, so the generated MAX_DLC_VALUE could be too small and Pack left
the tail of the longest frames uninitialised.
---
 src/parser/dbcscanner.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 2757b35..90504e1 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -80,12 +80,6 @@ void DbcScanner::ParseMessageInfo(istream& readstrm)
     // New message line has been found
     if (lparser.IsMessageLine(sline))
     {
-      // if actual message, check DLC value for being max
-      if ((pMsg != nullptr) && (pMsg->DLC > dblist.maxDlcValue))
-      {
-        dblist.maxDlcValue = pMsg->DLC;
-      }
-
       // the message will be added only if pMsg is not nullptr
       AddMessage(pMsg);
 
@@ -311,6 +305,12 @@ void DbcScanner::AddMessage(MessageDescriptor_t* message)
       }
     }
 
+    // check DLC value for being max
+    if (message->DLC > dblist.maxDlcValue)
+    {
+      dblist.maxDlcValue = message->DLC;
+    }
+
     // save pointer on message
     dblist.msgs.push_back(message);
   }
-- 
2.43.0


From fddc33ce992b71556bd35a10c4508e1a4981c2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:37 +0000
Subject: [PATCH 04/46] fix: print integer factor and offset without cutting
 them to 32 bits

Integer-scaled signals with a factor or offset beyond int32 got a wrong
(implementation defined) constant in their toS / fromS macros.
---
 src/codegen/c-sigprinter.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index 8ef29bf..3fe0500 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -73,7 +73,7 @@ std::string CSigPrinter::PrintPhysicalToRaw(const SignalDescriptor_t* sig, const
   }
   else
   {
-    retstr += StrPrint("#define %s_%s_CovFactor (%d)\n", drvname.c_str(), sig->Name.c_str(), (int32_t)sig->Factor);
+    retstr += StrPrint("#define %s_%s_CovFactor (%lld)\n", drvname.c_str(), sig->Name.c_str(), (long long)sig->Factor);
   }
 
   retstr += StrPrint("#define %s_%s_toS(x) ( (%s) ", drvname.c_str(), sig->Name.c_str(),
@@ -88,17 +88,17 @@ std::string CSigPrinter::PrintPhysicalToRaw(const SignalDescriptor_t* sig, const
     if (sig->Offset == 0)
     {
       // only factor
-      retstr += StrPrint("((x) / (%d)) )\n", (int32_t)sig->Factor);
+      retstr += StrPrint("((x) / (%lld)) )\n", (long long)sig->Factor);
     }
     else if (sig->Factor == 1)
     {
       // only offset
-      retstr += StrPrint("((x) - (%d)) )\n", (int32_t)sig->Offset);
+      retstr += StrPrint("((x) - (%lld)) )\n", (long long)sig->Offset);
     }
     else
     {
       // full expression
-      retstr += StrPrint("(((x) - (%d)) / (%d)) )\n", (int32_t)sig->Offset, (int32_t)sig->Factor);
+      retstr += StrPrint("(((x) - (%lld)) / (%lld)) )\n", (long long)sig->Offset, (long long)sig->Factor);
     }
   }
 
@@ -113,17 +113,17 @@ std::string CSigPrinter::PrintPhysicalToRaw(const SignalDescriptor_t* sig, const
     if (sig->Offset == 0)
     {
       // only factor
-      retstr += StrPrint("((x) * (%d)) )\n", (int32_t)sig->Factor);
+      retstr += StrPrint("((x) * (%lld)) )\n", (long long)sig->Factor);
     }
     else if (sig->Factor == 1)
     {
       // only offset
-      retstr += StrPrint("((x) + (%d)) )\n", (int32_t)sig->Offset);
+      retstr += StrPrint("((x) + (%lld)) )\n", (long long)sig->Offset);
     }
     else
     {
       // full expression
-      retstr += StrPrint("(((x) * (%d)) + (%d)) )\n", (int32_t)sig->Factor, (int32_t)sig->Offset);
+      retstr += StrPrint("(((x) * (%lld)) + (%lld)) )\n", (long long)sig->Factor, (long long)sig->Offset);
     }
   }
 
-- 
2.43.0


From bb26dfbcad9538b8ea7a66b87752d0c8ad8952d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:37 +0000
Subject: [PATCH 05/46] fix: take negative factor into account for the physical
 field type

A negative factor swaps the ends of the physical range, the type was chosen
by the lower end and could be too narrow for the upper one.
---
 src/parser/dbclineparser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index d676f16..de78556 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -384,6 +384,12 @@ SigType DbcLineParser::GetSigType(SignalDescriptor_t* sig)
     max_abs = max_abs * i_factor + i_offset;
     min_abs = min_abs * i_factor + i_offset;
 
+    if (max_abs < min_abs)
+    {
+      // negative factor turns the range over
+      std::swap(max_abs, min_abs);
+    }
+
     if (sig->Signed || max_abs < 0 || min_abs < 0)
     {
       // phys value must be signed
-- 
2.43.0


From 7bee582483e83eb6be4135766f88eb0ee2f52ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:02 +0000
Subject: [PATCH 06/46] fix: evaluate integer signal conversions in a type
 which fits them

fromS / toS were evaluated in the type of their argument, so e.g. a 32-bit
unsigned raw value with negative offset gave a wrong 64-bit physical value,
and a negative factor was divided as a huge unsigned number.
---
 src/codegen/c-sigprinter.cpp | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index 3fe0500..6756317 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -1,4 +1,6 @@
 #include <stdlib.h>
+#include <stdint.h>
+#include <cmath>
 #include <memory>
 #include "c-sigprinter.h"
 #include "helpers/formatter.h"
@@ -23,6 +25,22 @@ static inline bool NeedWideShift(const SignalDescriptor_t* sig, int32_t width, i
   return (sig->LengthBit > 32) && (shift + width > 31);
 }
 
+/// @brief Returns the cast which the argument of integer conversion needs, because the
+/// expression can't be evaluated correctly in the type of the argument promoted to (int)
+static std::string IntegerConversionCast(const SignalDescriptor_t* sig)
+{
+  const bool phys_unsigned = (sig->TypePhys >= SigType::u8);
+  const bool phys_64 = (sig->TypePhys == SigType::i64 || sig->TypePhys == SigType::u64);
+  const double scaled_max = std::ldexp(std::fabs(sig->Factor), sig->LengthBit - (sig->Signed ? 1 : 0));
+
+  if ((phys_unsigned && sig->Factor < 0) || (!phys_unsigned && !phys_64 && scaled_max > INT32_MAX))
+  {
+    return "(int64_t)";
+  }
+
+  return phys_64 ? ("(" + PrintType((uint8_t)sig->TypePhys) + ")") : "";
+}
+
 CSigPrinter::CSigPrinter()
 {
   sigs_expr.clear();
@@ -64,6 +82,7 @@ std::string CSigPrinter::PrintPhysicalToRaw(const SignalDescriptor_t* sig, const
 
   const std::string prtFactor = prt_double(sig->Factor, 9);
   const std::string prtOffset = prt_double(sig->Offset, 9);
+  const std::string prtCast = sig->IsDoubleSig ? "" : IntegerConversionCast(sig);
 
   retstr = StrPrint("// signal: @%s\n", sig->Name.c_str());
 
@@ -88,17 +107,17 @@ std::string CSigPrinter::PrintPhysicalToRaw(const SignalDescriptor_t* sig, const
     if (sig->Offset == 0)
     {
       // only factor
-      retstr += StrPrint("((x) / (%lld)) )\n", (long long)sig->Factor);
+      retstr += StrPrint("(%s(x) / (%lld)) )\n", prtCast.c_str(), (long long)sig->Factor);
     }
     else if (sig->Factor == 1)
     {
       // only offset
-      retstr += StrPrint("((x) - (%lld)) )\n", (long long)sig->Offset);
+      retstr += StrPrint("(%s(x) - (%lld)) )\n", prtCast.c_str(), (long long)sig->Offset);
     }
     else
     {
       // full expression
-      retstr += StrPrint("(((x) - (%lld)) / (%lld)) )\n", (long long)sig->Offset, (long long)sig->Factor);
+      retstr += StrPrint("((%s(x) - (%lld)) / (%lld)) )\n", prtCast.c_str(), (long long)sig->Offset, (long long)sig->Factor);
     }
   }
 
@@ -113,17 +132,17 @@ std::string CSigPrinter::PrintPhysicalToRaw(const SignalDescriptor_t* sig, const
     if (sig->Offset == 0)
     {
       // only factor
-      retstr += StrPrint("((x) * (%lld)) )\n", (long long)sig->Factor);
+      retstr += StrPrint("(%s(x) * (%lld)) )\n", prtCast.c_str(), (long long)sig->Factor);
     }
     else if (sig->Factor == 1)
     {
       // only offset
-      retstr += StrPrint("((x) + (%lld)) )\n", (long long)sig->Offset);
+      retstr += StrPrint("(%s(x) + (%lld)) )\n", prtCast.c_str(), (long long)sig->Offset);
     }
     else
     {
       // full expression
-      retstr += StrPrint("(((x) * (%lld)) + (%lld)) )\n", (long long)sig->Factor, (long long)sig->Offset);
+      retstr += StrPrint("((%s(x) * (%lld)) + (%lld)) )\n", prtCast.c_str(), (long long)sig->Factor, (long long)sig->Offset);
     }
   }
 
-- 
2.43.0


From 341a222cf72b4b2534d77cb8a82675da23535167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 07/46] fix: keep the precision of factor and offset in
 conversion macros

The values were cut after 9 decimal digits, e.g. factor 8.38e-08 became
0.000000083, so physical values of such signals were wrong by up to 100%.
---
 src/codegen/c-sigprinter.cpp |  4 ++--
 src/helpers/formatter.cpp    | 22 ++++++++++++++++++++++
 src/helpers/formatter.h      |  5 +++++
 3 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index 6756317..0e58207 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -80,8 +80,8 @@ std::string CSigPrinter::PrintPhysicalToRaw(const SignalDescriptor_t* sig, const
 {
   std::string retstr = "";
 
-  const std::string prtFactor = prt_double(sig->Factor, 9);
-  const std::string prtOffset = prt_double(sig->Offset, 9);
+  const std::string prtFactor = prt_literal(sig->Factor);
+  const std::string prtOffset = prt_literal(sig->Offset);
   const std::string prtCast = sig->IsDoubleSig ? "" : IntegerConversionCast(sig);
 
   retstr = StrPrint("// signal: @%s\n", sig->Name.c_str());
diff --git a/src/helpers/formatter.cpp b/src/helpers/formatter.cpp
index fd45a22..f48f255 100644
--- a/src/helpers/formatter.cpp
+++ b/src/helpers/formatter.cpp
@@ -1,4 +1,5 @@
 #include <algorithm>
+#include <cstdlib>
 #include <limits>
 #include <iomanip>
 #include <sstream>
@@ -200,3 +201,24 @@ std::string prt_double(double value, size_t precision, bool usedot)
 
   return s;
 }
+
+std::string prt_literal(double value)
+{
+  std::string s = prt_double(value, 9);
+
+  for (int digits = 15; digits <= 17 && std::strtod(s.c_str(), nullptr) != value; digits++)
+  {
+    // short view is not exact, take as many digits as necessary
+    std::stringstream strstrm;
+    strstrm.imbue(std::locale::classic());
+    strstrm << std::setprecision(digits) << value;
+    s = strstrm.str();
+
+    if (s.find_first_of(".e") == std::string::npos)
+    {
+      s += ".0";
+    }
+  }
+
+  return s;
+}
diff --git a/src/helpers/formatter.h b/src/helpers/formatter.h
index 163373f..8fbf0ac 100644
--- a/src/helpers/formatter.h
+++ b/src/helpers/formatter.h
@@ -24,6 +24,11 @@ std::string str_trim(std::string s);
 /// @return string object fixed formatted value
 std::string prt_double(double value, size_t precision, bool usedot = true);
 
+/// @brief Function prints double value as a literal which keeps the value exactly
+/// @param value value to format
+/// @return short view (like prt_double) when it is exact, otherwise the full precision one
+std::string prt_literal(double value);
+
 /**
  * @brief Makes input string valid C-identifier
  *
-- 
2.43.0


From 329b37ca25e457033a50905fcf71f670514c33c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:45 +0000
Subject: [PATCH 08/46] fix: give equally named signals with different scaling
 their own macros

toS / fromS were printed once per signal name, so a signal of another message
with the same name but another factor or offset was converted with wrong ones.
---
 src/codegen/c-main-generator.cpp | 30 ++++++++++++++++++++++--------
 src/codegen/c-sigprinter.cpp     |  8 ++++----
 src/types/message.h              |  3 +++
 3 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index d92716f..1e4106a 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -6,7 +6,7 @@
 #include <stdarg.h>
 #include <filesystem>
 #include <algorithm>
-#include <set>
+#include <map>
 #include <regex>
 #include "helpers/formatter.h"
 #include "mon-generator.h"
@@ -82,7 +82,7 @@ void CiMainGenerator::Generate(DbcMessageList_t& dlist, const AppSettings_t& fsd
 
 void CiMainGenerator::Gen_MainHeader()
 {
-  std::set<std::string> passed_sigs;
+  std::map<std::string, std::string> passed_sigs;
   fwriter.AppendText(fdesc->gen.start_common_info);
   fwriter.AppendText(fdesc->gen.start_driver_info);
   fwriter.Append("#pragma once");
@@ -183,11 +183,24 @@ void CiMainGenerator::Gen_MainHeader()
 
       if (!s.IsSimpleSig)
       {
-        if (passed_sigs.find(s.Name) == passed_sigs.end())
+        s.NameConv = s.Name;
+
+        auto conv = sigprt.PrintPhysicalToRaw(&s, fdesc->gen.DRVNAME);
+        auto passed = passed_sigs.find(s.Name);
+
+        if (passed != passed_sigs.end() && passed->second != conv)
+        {
+          // signal with the same name but with another conversion was already
+          // printed, so this one needs its own macros
+          s.NameConv = s.Name + "_" + m.Name;
+          conv = sigprt.PrintPhysicalToRaw(&s, fdesc->gen.DRVNAME);
+          fwriter.Append(conv);
+        }
+        else if (passed == passed_sigs.end())
         {
           // print signal macroses only it was not printed before
-          fwriter.Append(sigprt.PrintPhysicalToRaw(&s, fdesc->gen.DRVNAME));
-          passed_sigs.insert(s.Name);
+          fwriter.Append(conv);
+          passed_sigs.insert({s.Name, conv});
         }
       }
 
@@ -706,14 +719,15 @@ void CiMainGenerator::WriteUnpackBody(const CiExpr_t* sgs)
       {
         // for double signals (sigfloat_t) type cast
         fwriter.Append("  _m->%s = (sigfloat_t)(%s_%s_fromS(_m->%s));",
-          sgs->msg.Signals[num].NameFloat.c_str(), fdesc->gen.DRVNAME.c_str(), sname, sname);
+          sgs->msg.Signals[num].NameFloat.c_str(), fdesc->gen.DRVNAME.c_str(),
+          sgs->msg.Signals[num].NameConv.c_str(), sname);
       }
       else
       {
         fwriter.Append("  _m->%s = (%s) %s_%s_fromS(_m->%s);",
           sgs->msg.Signals[num].NameFloat.c_str(),
           PrintType((int)sgs->msg.Signals[num].TypePhys).c_str(),
-          fdesc->gen.DRVNAME.c_str(), sname, sname);
+          fdesc->gen.DRVNAME.c_str(), sgs->msg.Signals[num].NameConv.c_str(), sname);
       }
 
       fwriter.Append("#endif // %s", fdesc->gen.usesigfloat_def.c_str());
@@ -834,7 +848,7 @@ void CiMainGenerator::PrintPackCommonText(const std::string& arrtxt, const CiExp
           sgs->msg.Signals[n].Name.c_str(),
           PrintType((int) sgs->msg.Signals[n].TypeRo).c_str(),
           fdesc->gen.DRVNAME.c_str(),
-          sgs->msg.Signals[n].Name.c_str(), sgs->msg.Signals[n].NameFloat.c_str());
+          sgs->msg.Signals[n].NameConv.c_str(), sgs->msg.Signals[n].NameFloat.c_str());
       }
     }
 
diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index 0e58207..f81f4c7 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -88,14 +88,14 @@ std::string CSigPrinter::PrintPhysicalToRaw(const SignalDescriptor_t* sig, const
 
   if (sig->IsDoubleSig)
   {
-    retstr += StrPrint("#define %s_%s_CovFactor (%s)\n", drvname.c_str(), sig->Name.c_str(), prtFactor.c_str());
+    retstr += StrPrint("#define %s_%s_CovFactor (%s)\n", drvname.c_str(), sig->NameConv.c_str(), prtFactor.c_str());
   }
   else
   {
-    retstr += StrPrint("#define %s_%s_CovFactor (%lld)\n", drvname.c_str(), sig->Name.c_str(), (long long)sig->Factor);
+    retstr += StrPrint("#define %s_%s_CovFactor (%lld)\n", drvname.c_str(), sig->NameConv.c_str(), (long long)sig->Factor);
   }
 
-  retstr += StrPrint("#define %s_%s_toS(x) ( (%s) ", drvname.c_str(), sig->Name.c_str(),
+  retstr += StrPrint("#define %s_%s_toS(x) ( (%s) ", drvname.c_str(), sig->NameConv.c_str(),
     PrintType((uint8_t)sig->TypeRo).c_str());
 
   if (sig->IsDoubleSig)
@@ -121,7 +121,7 @@ std::string CSigPrinter::PrintPhysicalToRaw(const SignalDescriptor_t* sig, const
     }
   }
 
-  retstr += StrPrint("#define %s_%s_fromS(x) ( ", drvname.c_str(), sig->Name.c_str());
+  retstr += StrPrint("#define %s_%s_fromS(x) ( ", drvname.c_str(), sig->NameConv.c_str());
 
   if (sig->IsDoubleSig)
   {
diff --git a/src/types/message.h b/src/types/message.h
index 275b9fc..b96e1a5 100644
--- a/src/types/message.h
+++ b/src/types/message.h
@@ -39,6 +39,9 @@ typedef struct
   std::string Name;
   // Signal float name
   std::string NameFloat;
+  // Name of toS / fromS conversion macros (differs from the signal name when
+  // signals with the same name have different conversion)
+  std::string NameConv;
   // Unit
   std::string Unit;
 
-- 
2.43.0


From e015bca086e19dd79005e74aaffe3d4cffed9bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 09/46] fix: accept transmitter nodes with one-letter names

The transmitter of a message was dropped when its name had one character, so
the node had no TX messages and possibly no utils at all.
---
 src/parser/dbclineparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index de78556..3f7e4d2 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -126,7 +126,7 @@ bool DbcLineParser::ParseMessageLine(MessageDescriptor_t* msg, const std::string
 
   std::string txname = (items.size() >= 6) ? (items[5]) : ("");
 
-  if (txname.size() > 1)
+  if (!txname.empty())
   {
     msg->TranS.push_back(txname);
   }
-- 
2.43.0


From 20519da343ddfff9277a971744b6b53c52c4eff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 10/46] fix: accept multiple transmitters of the message with
 ID 0

ID 0 was taken as 'no BO_TX_BU_ line', so its transmitters were ignored.
---
 src/parser/dbclineparser.cpp | 7 ++-----
 src/parser/dbcscanner.cpp    | 2 +-
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 3f7e4d2..c8d19ba 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -159,12 +159,9 @@ uint32_t DbcLineParser::ParseMultiTrans(std::vector<std::string>& outnodes, std:
   {
     ret = clear_msgid(static_cast<uint32_t>(atoll(chunks[1].c_str())));
 
-    if (ret != 0)
+    for (size_t i = 2; i < chunks.size(); i++)
     {
-      for (size_t i = 2; i < chunks.size(); i++)
-      {
-        outnodes.push_back(chunks[i]);
-      }
+      outnodes.push_back(chunks[i]);
     }
   }
 
diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 90504e1..f99233d 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -121,7 +121,7 @@ void DbcScanner::ParseMessageInfo(istream& readstrm)
 
     uint32_t msgid = lparser.ParseMultiTrans(tx_nodes, sline);
 
-    if (msgid != 0)
+    if (!tx_nodes.empty())
     {
       // In this place no messages will captured after,
       // so put temp pMsg as last message and null it
-- 
2.43.0


From fb750b0d324fdc47ed37d6d6b247152097240d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:14 +0000
Subject: [PATCH 11/46] fix: keep padding of struct fields from underflow on
 long names

---
 src/codegen/c-main-generator.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index 1e4106a..1dcc991 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -602,7 +602,12 @@ void CiMainGenerator::WriteSigStructField(const SignalDescriptor_t& sig, bool bi
 
   std::string pad = " ";
 
-  dtype += pad.insert(0, padwidth + 16 - dtype.size(), ' ');
+  if (padwidth + 16 > dtype.size())
+  {
+    pad.insert(0, padwidth + 16 - dtype.size(), ' ');
+  }
+
+  dtype += pad;
 
   fwriter.AppendText(dtype);
 
-- 
2.43.0


From ee517cb020cb55312f568e9dd2c4af09c96c16f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 12/46] fix: place checksum signals of any payload byte

---
 src/codegen/c-sigprinter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index f81f4c7..2c195f9 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -185,11 +185,11 @@ int32_t CSigPrinter::BuildCConvertExprs(CiExpr_t* msgprinter)
 
   if (msgprinter->msg.CsmSig != nullptr)
   {
-    std::vector<std::string> v(8);
+    std::vector<std::string> v(msgprinter->msg.DLC);
 
     PrintSignalExpr(msgprinter->msg.CsmSig, v);
 
-    for (uint8_t i = 0; i < v.size() && i < 8; i++)
+    for (uint8_t i = 0; i < v.size(); i++)
     {
       if (v[i].size() > 0)
       {
-- 
2.43.0


From bc5fad10012807f41e3d419eaff42e8b72c40dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:25 +0000
Subject: [PATCH 13/46] fix: find the checksum marker anywhere in the comment

---
 src/parser/dbcscanner.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index f99233d..3930ac6 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -196,7 +196,7 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
 
               extern std::vector<std::string> resplit(const std::string & s, const std::string & rgx_str, int32_t submatch);
 
-              size_t openpos = cmmnt.Text.find('<');
+              size_t openpos = cmmnt.Text.find("<Checksum:");
 
               if (openpos != std::string::npos)
               {
@@ -204,7 +204,7 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
 
                 if ((closepos != std::string::npos) && (closepos > (openpos + 1)))
                 {
-                  auto substr = cmmnt.Text.substr(openpos + 1, closepos - 1);
+                  auto substr = cmmnt.Text.substr(openpos + 1, closepos - openpos - 1);
 
                   auto meta = resplit(substr, "(\\:)", -1);
 
-- 
2.43.0


From 3af6f0726c60a4121cfbf8fbdbbaa4bc0a04c951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 14/46] fix: do not take the last message for a missing one

---
 src/parser/dbcscanner.cpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 3930ac6..84c4338 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -10,25 +10,16 @@
 
 MessageDescriptor_t* find_message(vector<MessageDescriptor_t*> msgs, uint32_t ID)
 {
-  MessageDescriptor_t* ret = nullptr;
-
-  if (msgs.size() == 0)
-  {
-    return ret;
-  }
-
   for (size_t i = 0; i < msgs.size(); i++)
   {
-    ret = msgs[i];
-
-    if (ret->MsgID == ID)
+    if (msgs[i]->MsgID == ID)
     {
       // Frame found
-      break;
+      return msgs[i];
     }
   }
 
-  return ret;
+  return nullptr;
 }
 
 DbcScanner::DbcScanner()
-- 
2.43.0


From a48fb604a1de4f7fd4465ad5bd84e97ba271119b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:38 +0000
Subject: [PATCH 15/46] fix: refuse every signal which does not fit to its
 frame

---
 src/codegen/c-sigprinter.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index 2c195f9..75b4ab8 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -214,17 +214,14 @@ std::string CSigPrinter::PrintSignalExpr(const SignalDescriptor_t* sig, std::vec
     return "Error in DBC file !!!! Dlc of this message must be greater.";
   }
 
-  uint16_t startb = (uint16_t)((sig->Order == BitLayout::kIntel) ?
-    (sig->StartBit + (sig->LengthBit - 1)) : (sig->StartBit));
+  int64_t startb = sig->StartBit;
 
-  if (startb > CONF_LIMIT_HIGHEST_BIT_POSITION)
+  if (sig->Order == BitLayout::kIntel)
   {
-    startb = CONF_LIMIT_HIGHEST_BIT_POSITION;
+    startb += sig->LengthBit - 1;
   }
 
-  uint32_t bn = (startb / 8);
-
-  if (to_bytes.size() <= bn)
+  if (startb / 8 >= (int64_t)to_bytes.size())
   {
     // DLC from message doesn't fit to signal layout
     // make code uncomplilable
@@ -232,6 +229,8 @@ std::string CSigPrinter::PrintSignalExpr(const SignalDescriptor_t* sig, std::vec
     return to_bytes[0];
   }
 
+  uint32_t bn = (uint32_t)(startb / 8);
+
   // set valid to_byte prefix
   int32_t bbc = (startb % 8) + 1;
   int32_t slen = sig->LengthBit;
@@ -277,7 +276,7 @@ std::string CSigPrinter::PrintSignalExpr(const SignalDescriptor_t* sig, std::vec
 
       bn = ShiftByte(sig, bn);
 
-      if (to_bytes.size() < bn)
+      if (to_bytes.size() <= bn)
       {
         // DLC from message doesn't fit to signal layout
         // make code uncomplilable
@@ -316,6 +315,14 @@ std::string CSigPrinter::PrintSignalExpr(const SignalDescriptor_t* sig, std::vec
     {
       bn = ShiftByte(sig, bn);
 
+      if (to_bytes.size() <= bn)
+      {
+        // DLC from message doesn't fit to signal layout
+        // make code uncomplilable
+        to_bytes[0] = "Error in DBC file !!!! Dlc of this message must be greater.";
+        return to_bytes[0];
+      }
+
       snprintf(workbuff, WBUFF_LEN, " | ((_d[%d] >> %dU) & (%s))", bn, 8 - slen, msk[slen].c_str());
       tosigexpr += workbuff;
 
-- 
2.43.0


From fde6e2d15e69b2fe356688598ca93549c8cd52c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:14 +0000
Subject: [PATCH 16/46] fix: write the package to the numbered directory
 created for it

---
 src/codegen/fs-creator.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/codegen/fs-creator.cpp b/src/codegen/fs-creator.cpp
index 944bce9..cbd6871 100644
--- a/src/codegen/fs-creator.cpp
+++ b/src/codegen/fs-creator.cpp
@@ -150,6 +150,15 @@ bool FsCreator::PrepareDirectory(bool rw)
     }
   }
 
+  if (!ret)
+  {
+    return ret;
+  }
+
+  // place all the files to the selected directory
+  Configure(FS.gen.DrvName_orig, work_dir_path, FS.gen.start_common_info,
+    FS.gen.start_driver_info, FS.gen.hiver, FS.gen.lowver);
+
   std::filesystem::create_directory(FS.file.libdir);
   std::filesystem::create_directory(FS.file.usrdir);
   std::filesystem::create_directory(FS.file.incdir);
-- 
2.43.0


From ed854bbd8a65e588043238013f66bcd384f28e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:52 +0000
Subject: [PATCH 17/46] fix: report problems with input and output paths
 instead of aborting

---
 src/app.cpp                |  7 +++--
 src/codegen/fs-creator.cpp | 56 ++++++++++----------------------------
 2 files changed, 20 insertions(+), 43 deletions(-)

diff --git a/src/app.cpp b/src/app.cpp
index 4810d9b..22ff14c 100644
--- a/src/app.cpp
+++ b/src/app.cpp
@@ -86,7 +86,9 @@ void CoderApp::GenerateCode()
   std::cout << "gen path : " << Params.outdir.first << std::endl;
   std::cout << "drv name : " << Params.drvname.first << std::endl;
 
-  if (std::filesystem::exists(Params.dbc.first) == false)
+  std::error_code err;
+
+  if (std::filesystem::exists(Params.dbc.first, err) == false)
   {
     std::cout << "DBC file is not exists!" << std::endl;
     return;
@@ -255,7 +257,8 @@ void CoderApp::GenerateCode()
 /// @return TRUE if configuration valid, otherwise FALSE
 bool CoderApp::AreParamsValid()
 {
-  return (Params.dbc.second && Params.outdir.second && Params.drvname.second) && (Params.is_help == false);
+  return (Params.dbc.second && Params.outdir.second && Params.drvname.second) &&
+    !Params.dbc.first.empty() && !Params.outdir.first.empty() && (Params.is_help == false);
 }
 
 /// @brief Help message printer
diff --git a/src/codegen/fs-creator.cpp b/src/codegen/fs-creator.cpp
index cbd6871..e9f0daa 100644
--- a/src/codegen/fs-creator.cpp
+++ b/src/codegen/fs-creator.cpp
@@ -97,56 +97,30 @@ bool FsCreator::PrepareDirectory(bool rw)
 {
   bool ret = false;
 
-  // find free directory
-  struct stat info;
-
   std::string work_dir_path;
   const auto& basepath = FS.file.core_h.dir;
 
+  // any problem with directories must be reported, not thrown
+  std::error_code err;
+
+  // the output directory (or its driver subdirectory) may not exist yet
+  std::filesystem::create_directories(basepath, err);
+
   if (rw)
   {
     work_dir_path = basepath;
-    ret = true;
-
-    // for this case check only if directory exists
-    if (stat(work_dir_path.c_str(), &info) != 0)
-    {
-      if (!std::filesystem::create_directory(work_dir_path))
-      {
-        ret = false;
-      }
-    }
+    ret = std::filesystem::is_directory(work_dir_path, err);
   }
   else
   {
     std::string separator = basepath.back() == '/' ? "" : "/";
 
-    for (int32_t dirnum = 0; dirnum < 1000; dirnum++)
+    // find free directory, occupied names are skipped
+    for (int32_t dirnum = 0; dirnum < 1000 && !ret; dirnum++)
     {
       snprintf(_tmpb, kTmpLen, "%03d", dirnum);
       work_dir_path = basepath + separator + _tmpb;
-
-      if (stat(work_dir_path.c_str(), &info) != 0)
-      {
-        if (std::filesystem::create_directory(work_dir_path))
-        {
-          ret = true;
-          break;
-        }
-      }
-      else if (info.st_mode & S_IFDIR)
-      {
-        // directory exists, try next num
-        continue;
-      }
-      else
-      {
-        if (std::filesystem::create_directory(work_dir_path) != 0)
-        {
-          ret = false;
-          break;
-        }
-      }
+      ret = std::filesystem::create_directory(work_dir_path, err);
     }
   }
 
@@ -159,11 +133,11 @@ bool FsCreator::PrepareDirectory(bool rw)
   Configure(FS.gen.DrvName_orig, work_dir_path, FS.gen.start_common_info,
     FS.gen.start_driver_info, FS.gen.hiver, FS.gen.lowver);
 
-  std::filesystem::create_directory(FS.file.libdir);
-  std::filesystem::create_directory(FS.file.usrdir);
-  std::filesystem::create_directory(FS.file.incdir);
-  std::filesystem::create_directory(FS.file.confdir);
-  std::filesystem::create_directory(FS.file.utildir);
+  for (const auto& dir : { FS.file.libdir, FS.file.usrdir, FS.file.incdir, FS.file.confdir, FS.file.utildir })
+  {
+    std::filesystem::create_directory(dir, err);
+    ret = ret && std::filesystem::is_directory(dir, err);
+  }
 
   return ret;
 }
-- 
2.43.0


From 82185f1218d7225c661ec2f7624997931e501a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:21 +0000
Subject: [PATCH 18/46] fix: do not abort on version numbers which are out of
 range

---
 src/parser/dbcscanner.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 84c4338..b0ef116 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -2,6 +2,8 @@
 #include <algorithm>
 #include <math.h>
 #include <regex>
+#include <cstdint>
+#include <cstdlib>
 #include <cstring>
 #include <cctype>
 #include <sstream>
@@ -347,10 +349,16 @@ static bool ParseVersionLine(const std::string& line, std::string& str, uint32_t
     {
       // 1 for the whole match and 3 for the capture groups
       str = matches[1].str();
-      num1 = std::stoul(matches[2].str());
-      num2 = std::stoul(matches[3].str());
-      // successfully matched all three parts
-      return true;
+      auto val1 = std::strtoull(matches[2].str().c_str(), nullptr, 10);
+      auto val2 = std::strtoull(matches[3].str().c_str(), nullptr, 10);
+
+      if (val1 <= UINT32_MAX && val2 <= UINT32_MAX)
+      {
+        num1 = static_cast<uint32_t>(val1);
+        num2 = static_cast<uint32_t>(val2);
+        // successfully matched all three parts
+        return true;
+      }
     }
   }
 
-- 
2.43.0


From 8828b2d64f90cf4f2184073f8ddaf82d034d98fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:29 +0000
Subject: [PATCH 19/46] fix: check message ID and DLC before cutting them to
 the field size

---
 src/parser/dbclineparser.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index c8d19ba..39f83aa 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -133,15 +133,18 @@ bool DbcLineParser::ParseMessageLine(MessageDescriptor_t* msg, const std::string
 
   msg->Name = items[2];
 
-  msg->MsgID = static_cast<uint32_t>(atoll(items[1].c_str()));
+  const auto id = atoll(items[1].c_str());
+  const auto dlc = atoll(items[4].c_str());
 
-  msg->DLC = atoi(items[4].c_str());
-
-  if ((msg->MsgID & 0x60000000) != 0 || msg->DLC == 0 || msg->DLC > CONF_LIMIT_MAX_DLC)
+  if (id < 0 || id > UINT32_MAX || (id & 0x60000000) != 0 || dlc < 1 || dlc > CONF_LIMIT_MAX_DLC)
   {
     return false;
   }
 
+  msg->MsgID = static_cast<uint32_t>(id);
+
+  msg->DLC = static_cast<uint8_t>(dlc);
+
   msg->IsExt = ((uint8_t)(msg->MsgID >> 29) & 0x04) == 0x04 ? 1 : 0;
 
   msg->MsgID = clear_msgid(msg->MsgID);
-- 
2.43.0


From d82d0c2ff3ffb77b2a38e8d21785d8b5220efd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:31 +0000
Subject: [PATCH 20/46] fix: keep non-ASCII characters at the end of line

---
 src/helpers/formatter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helpers/formatter.cpp b/src/helpers/formatter.cpp
index f48f255..73f85c4 100644
--- a/src/helpers/formatter.cpp
+++ b/src/helpers/formatter.cpp
@@ -88,7 +88,7 @@ std::string str_trim(std::string s)
 
   while (passed < s.size())
   {
-    if (s[s.size() - passed - 1] > ' ')
+    if (static_cast<unsigned char>(s[s.size() - passed - 1]) > ' ')
     {
       break;
     }
-- 
2.43.0


From 1638db247d68c8f863144dac77fea8bba357b4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:37 +0000
Subject: [PATCH 21/46] fix: put value tables to scaled signals

---
 src/parser/dbcscanner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index b0ef116..6b7fcee 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -241,7 +241,7 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
         {
           for (size_t i = 0; i < msg->Signals.size(); i++)
           {
-            if (cmmnt.SigName == msg->Signals[i].Name)
+            if ((cmmnt.SigName == msg->Signals[i].Name) || ((cmmnt.SigName + "_ro") == msg->Signals[i].Name))
             {
               // signal has been found, update commnet text
               msg->Signals[i].ValueText = cmmnt.Text;
-- 
2.43.0


From 21036faae3bf6b60493787df4e9224299e2a46f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:45 +0000
Subject: [PATCH 22/46] fix: accept signal units with a separated colon

---
 src/parser/dbclineparser.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 39f83aa..fc82d7f 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -181,21 +181,26 @@ bool DbcLineParser::IsSignalLine(const std::string& line)
 
 bool DbcLineParser::ParseSignalLine(SignalDescriptor_t* sig, const std::string& line)
 {
-  // split line in two parts
-  auto halfs = resplit(line, kRegSigSplit1, -1);
+  // split line in two parts by the first delimiter (the others belong to unit)
+  std::smatch delimiter;
 
-  if (halfs.size() < 2)
+  if (!std::regex_search(line, delimiter, std::regex(kRegSigSplit1)))
   {
     return false;
   }
 
   // split tail
-  auto tailpart = resplit(halfs[1], kregSigSplit2, -1);
+  auto tailpart = resplit(delimiter.suffix(), kregSigSplit2, -1);
+
+  if (tailpart.empty())
+  {
+    return false;
+  }
 
   // split middle part on dedicated values
   auto valpart = resplit(trim(tailpart[0]), kRegSigReceivers, -1);
 
-  halfs = resplit(halfs[0], kRegValTable, 0);
+  auto halfs = resplit(delimiter.prefix(), kRegValTable, 0);
 
   if (halfs.size() >= 2)
   {
-- 
2.43.0


From acc4726a9a9a401775279a3a840735abc82f9af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 23/46] fix: do not run out of stack on long attributes and
 value tables

---
 src/parser/dbclineparser.cpp | 74 ++++++++++++++++++++++++++++++++++--
 1 file changed, 70 insertions(+), 4 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index fc82d7f..0ddc181 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -1,4 +1,6 @@
 #include <stdlib.h>
+#include <ctype.h>
+#include <algorithm>
 #include <clocale>
 #include <regex>
 #include <math.h>
@@ -24,8 +26,6 @@ static const std::string kregSigSplit2 = "(\")";
 static const std::string kRegCommMain = "\"";
 static const std::string kRegCommMeta = "[ ]+";
 
-// This reg splits line to parts (for attributes)
-static const std::string kRegAttrMain = "[^A-Za-z0-9_\\.]+";
 static const std::string kTransmittersList = "[^a-zA-Z_0-9]+";
 
 // Regex template to split string by spaces BUT NOT what inside quotes OR apostrophes
@@ -78,6 +78,72 @@ std::vector<std::string> resplit(const std::string& s, const std::string& rgx_st
   return elems;
 }
 
+// Splits attribute text on words. Attribute may be spread over any count of lines,
+// so regex (which is recursive) must not be used on it
+static std::vector<std::string> split_attribute(const std::string& s)
+{
+  std::vector<std::string> elems;
+  bool inword = false;
+
+  for (const char c : s)
+  {
+    const bool wordchar = isalnum(static_cast<unsigned char>(c)) || c == '_' || c == '.';
+
+    if (wordchar && !inword)
+    {
+      elems.push_back("");
+    }
+
+    if (wordchar)
+    {
+      elems.back() += c;
+    }
+
+    inword = wordchar;
+  }
+
+  return elems;
+}
+
+// Splits value table text on items: separated by spaces or placed inside quotes
+// (they are kept). As well as attribute it must not be processed by regex
+static std::vector<std::string> split_valtable(const std::string& s)
+{
+  static const std::string spaces = "\t\n\v\f\r ";
+
+  std::vector<std::string> elems;
+  size_t pos = 0;
+
+  while (pos < s.size())
+  {
+    size_t end = pos + 1;
+
+    if (s[pos] == '"')
+    {
+      end = s.find('"', pos + 1);
+
+      if (end != std::string::npos)
+      {
+        elems.push_back(s.substr(pos, ++end - pos));
+      }
+      else
+      {
+        // there is no pair for this quote
+        end = pos + 1;
+      }
+    }
+    else if (spaces.find(s[pos]) == std::string::npos)
+    {
+      end = std::min(s.find_first_of(spaces + '"', pos), s.size());
+      elems.push_back(s.substr(pos, end - pos));
+    }
+
+    pos = end;
+  }
+
+  return elems;
+}
+
 std::string& ltrim(std::string& str, const std::string& chars = "\t\n\v\f\r ")
 {
   str.erase(0, str.find_first_not_of(chars));
@@ -534,7 +600,7 @@ bool DbcLineParser::ParseAttributeLine(AttributeDescriptor_t* attr, const std::s
     {
       attr->Type = AttributeType::Undefined;
       // raw line is ready
-      auto items = resplit(attribline, kRegAttrMain, -1);
+      auto items = split_attribute(attribline);
 
       if (items.size() > 4 && items[1] == "GenMsgCycleTime" && items[2] == "BO_")
       {
@@ -574,7 +640,7 @@ bool DbcLineParser::ParseValTableLine(Comment_t* comm, const std::string& line,
       // split all items by spaces and inside quotes.
       // after this step proper value items will have count >= 5
       // last item will be ';' and number of items will be even
-      auto items = resplit(valueline, kRegValTable, 0);
+      auto items = split_valtable(valueline);
 
       if ((items.size() >= 3) && (items.back() == ";") && (items.size() % 2 == 0))
       {
-- 
2.43.0


From 1560604862b0100481829d37fcb90d17a47c2f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:50 +0000
Subject: [PATCH 24/46] fix: handle blank lines of CRLF files as of LF files

---
 src/helpers/formatter.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/helpers/formatter.cpp b/src/helpers/formatter.cpp
index 73f85c4..68533fe 100644
--- a/src/helpers/formatter.cpp
+++ b/src/helpers/formatter.cpp
@@ -79,12 +79,6 @@ std::string str_trim(std::string s)
 {
   size_t passed = 0;
 
-  if (s.empty())
-  {
-    return s + '\n';
-  }
-
-  passed = 0;
 
   while (passed < s.size())
   {
@@ -102,6 +96,12 @@ std::string str_trim(std::string s)
     s.erase(s.size() - passed, passed);
   }
 
+  if (s.empty())
+  {
+    // blank lines are the same whatever spaces they consist of
+    s += '\n';
+  }
+
   return s;
 }
 
-- 
2.43.0


From 83cf9adc349df4d1486811fdc84cf00e18ce7eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:59 +0000
Subject: [PATCH 25/46] fix: do not take lines of multi-line comments for
 statements

---
 src/parser/dbclineparser.cpp | 50 ++++++++++++++++++++++++++++++++++--
 src/parser/dbclineparser.h   | 16 ++++++++++++
 src/parser/dbcscanner.cpp    | 14 ++++++++++
 3 files changed, 78 insertions(+), 2 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 0ddc181..67fbafe 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -506,13 +506,59 @@ SigType DbcLineParser::GetSigType(SignalDescriptor_t* sig)
   return sig->TypeRo;
 }
 
+void DbcLineParser::Reset()
+{
+  commentopen = false;
+  commenttail = false;
+  commentline.clear();
+  attribline.clear();
+  valueline.clear();
+}
+
+bool DbcLineParser::TrackComment(const std::string& line)
+{
+  size_t quotes = 0;
+
+  for (size_t i = 0; i < line.size(); i++)
+  {
+    if (line[i] == '"' && (i == 0 || line[i - 1] != '\\'))
+    {
+      quotes++;
+    }
+  }
+
+  // text line has no quotes, except of the closing one
+  const bool closing = (quotes == 0) || (quotes == 1 && line.back() == ';' && line[line.size() - 2] == '"');
+  const bool opening = (line.find("CM_") == 0) && !(commentopen && closing);
+
+  commenttail = commentopen && !opening;
+
+  if (opening)
+  {
+    commentopen = (quotes % 2 != 0);
+  }
+  else if (commentopen)
+  {
+    commentopen = (quotes % 2 == 0);
+  }
+
+  return commenttail;
+}
+
+bool DbcLineParser::IsCommentTail() const
+{
+  return commenttail;
+}
+
 bool DbcLineParser::ParseCommentLine(Comment_t* cm, const std::string& line)
 {
   bool ret = false;
 
   if (line.size() > 0)
   {
-    if (line.find("CM_") == 0)
+    const bool istail = TrackComment(line);
+
+    if (line.find("CM_") == 0 && !istail)
     {
       commentline.clear();
       commentline = line;
@@ -524,7 +570,7 @@ bool DbcLineParser::ParseCommentLine(Comment_t* cm, const std::string& line)
     }
 
     // check if the current line last
-    if (commentline.size() > 0 && line.back() == ';')
+    if (commentline.size() > 0 && !commentopen && line.back() == ';')
     {
       // set invalid target type as default return value
       cm->ca_target = CommentTarget::Undefined;
diff --git a/src/parser/dbclineparser.h b/src/parser/dbclineparser.h
index 9b0c025..bbea19e 100644
--- a/src/parser/dbclineparser.h
+++ b/src/parser/dbclineparser.h
@@ -60,6 +60,16 @@ class DbcLineParser {
   // loads result in attr struct, return @true if parsed ok
   bool ParseAttributeLine(AttributeDescriptor_t* attr, const std::string& line);
 
+  // forgets all the lines which were not parsed up to the end
+  void Reset();
+
+  // looks for multi-line comments, has to be called for each line once,
+  // returns @true if the line continues comment text from previous line
+  bool TrackComment(const std::string& line);
+
+  // returns @true if the last tracked line continues comment text
+  bool IsCommentTail() const;
+
   // tries to parse comment information in line (or a few lines)
   // and loads result to cm struct, return @true if parsed ok
   bool ParseCommentLine(Comment_t* cm, const std::string& line);
@@ -82,6 +92,12 @@ class DbcLineParser {
   // defines the type for the message struct member
   SigType GetSigType(SignalDescriptor_t* sig);
 
+  // comment text is not closed by the last tracked line
+  bool commentopen{false};
+
+  // the last tracked line belongs to the comment started before
+  bool commenttail{false};
+
   // string to collect comment dbc line
   std::string commentline;
 
diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 6b7fcee..ee08e2b 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -38,6 +38,7 @@ int32_t DbcScanner::TrimDbcText(istream& readstrm)
   dblist.msgs.clear();
   dblist.ver.hi = dblist.ver.low = 0;
 
+  lparser.Reset();
   readstrm.clear();
   readstrm.seekg(0);
   // Search each message and signals in dbc source data,
@@ -47,6 +48,7 @@ int32_t DbcScanner::TrimDbcText(istream& readstrm)
   // all the messages and signals were read from source
   // scan it one more time to define all attributes and
   // more additional information
+  lparser.Reset();
   readstrm.clear();
   readstrm.seekg(0);
 
@@ -68,6 +70,12 @@ void DbcScanner::ParseMessageInfo(istream& readstrm)
   {
     sline = str_trim(sline);
 
+    if (lparser.TrackComment(sline))
+    {
+      // this is a part of comment text, whatever it looks like
+      continue;
+    }
+
     FindVersion(sline);
 
     // New message line has been found
@@ -224,6 +232,12 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
       }
     }
 
+    if (lparser.IsCommentTail())
+    {
+      // this is a part of comment text, whatever it looks like
+      continue;
+    }
+
     if (lparser.ParseValTableLine(&cmmnt, sline, vals))
     {
       // update message comment field
-- 
2.43.0


From cfdf23dc8a507d1b5f245d96a0710a74803019d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:01 +0000
Subject: [PATCH 26/46] fix: keep comment lines ended with backslash from
 hiding the next line

---
 src/codegen/c-main-generator.cpp | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index 1dcc991..04999ec 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -8,6 +8,7 @@
 #include <algorithm>
 #include <map>
 #include <regex>
+#include <sstream>
 #include "helpers/formatter.h"
 #include "mon-generator.h"
 #include "config-generator.h"
@@ -31,6 +32,29 @@ const char* extend_func_body =
   "  return ((val ^ m) - m);\n"
   "}\n\n";
 
+/// @brief Prints text to one-line comments, each line of the text starts with prefix
+static std::string PrintComment(const std::string& prefix, const std::string& text)
+{
+  std::stringstream lines(text);
+  std::string line;
+  std::string ret;
+
+  while (std::getline(lines, line))
+  {
+    // '\' (or its trigraph) at the end of line would expand the comment to the next line of code
+    auto last = line.find_last_not_of(" \t\v\f\r");
+
+    if (last != std::string::npos && (line[last] == '\\' || (last >= 2 && line.compare(last - 2, 3, "\?\?/") == 0)))
+    {
+      line += '.';
+    }
+
+    ret += (ret.empty() ? "" : "\n") + prefix + line;
+  }
+
+  return ret;
+}
+
 void CiMainGenerator::Generate(DbcMessageList_t& dlist, const AppSettings_t& fsd)
 {
   // Load income messages to sig printer
@@ -155,7 +179,7 @@ void CiMainGenerator::Gen_MainHeader()
     if (m.CommentText.size() > 0)
     {
       // replace all '\n' on "\n //" for c code comment text
-      fwriter.Append("// " + std::regex_replace(m.CommentText, std::regex("\n"), "\n// "));
+      fwriter.Append(PrintComment("// ", m.CommentText));
     }
 
     fwriter.Append("// def @%s CAN Message (%-4d %#x)", m.Name.c_str(), m.MsgID, m.MsgID);
@@ -572,12 +596,12 @@ void CiMainGenerator::WriteSigStructField(const SignalDescriptor_t& sig, bool bi
 {
   if (sig.CommentText.size() > 0)
   {
-    fwriter.Append("  // " + std::regex_replace(sig.CommentText, std::regex("\n"), "\n  // "));
+    fwriter.Append(PrintComment("  // ", sig.CommentText));
   }
 
   if (sig.ValueText.size() > 0)
   {
-    fwriter.Append("  // " + std::regex_replace(sig.ValueText, std::regex("\n"), "\n  // "));
+    fwriter.Append(PrintComment("  // ", sig.ValueText));
   }
 
   if (sig.Multiplex == MultiplexType::kMulValue)
-- 
2.43.0


From 5a7c15238fe6a75ab46e1316393435ff051a84d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:32 +0000
Subject: [PATCH 27/46] fix: do not take lines of multi-line value tables for
 statements

---
 src/parser/dbclineparser.cpp | 53 ++++++++++++++----------------------
 src/parser/dbclineparser.h   | 18 ++++++------
 src/parser/dbcscanner.cpp    | 12 +++-----
 3 files changed, 33 insertions(+), 50 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 67fbafe..474f193 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -508,46 +508,37 @@ SigType DbcLineParser::GetSigType(SignalDescriptor_t* sig)
 
 void DbcLineParser::Reset()
 {
-  commentopen = false;
-  commenttail = false;
+  textopen = false;
+  texttail = false;
   commentline.clear();
   attribline.clear();
   valueline.clear();
 }
 
-bool DbcLineParser::TrackComment(const std::string& line)
+bool DbcLineParser::TrackText(const std::string& line)
 {
-  size_t quotes = 0;
+  const auto quotes = std::count(line.begin(), line.end(), '"');
 
-  for (size_t i = 0; i < line.size(); i++)
-  {
-    if (line[i] == '"' && (i == 0 || line[i - 1] != '\\'))
-    {
-      quotes++;
-    }
-  }
+  // text must be followed by semicolon
+  const auto tailpos = line.find_last_not_of("; \t");
+  const bool closed = (tailpos != std::string::npos) && (line[tailpos] == '"') && (line.find(';', tailpos) != std::string::npos);
 
   // text line has no quotes, except of the closing one
-  const bool closing = (quotes == 0) || (quotes == 1 && line.back() == ';' && line[line.size() - 2] == '"');
-  const bool opening = (line.find("CM_") == 0) && !(commentopen && closing);
+  const bool istext = (quotes == 0) || (quotes == 1 && closed);
+  const bool isstart = (line.find("CM_") == 0) || (line.find("VAL_ ") == 0) || (line.find("BA_ ") == 0);
 
-  commenttail = commentopen && !opening;
+  texttail = textopen && !(isstart && !istext);
 
-  if (opening)
+  if (texttail)
   {
-    commentopen = (quotes % 2 != 0);
+    textopen = !closed && (quotes % 2 == 0);
   }
-  else if (commentopen)
+  else
   {
-    commentopen = (quotes % 2 == 0);
+    textopen = isstart && (quotes % 2 != 0) && !(closed && quotes > 1);
   }
 
-  return commenttail;
-}
-
-bool DbcLineParser::IsCommentTail() const
-{
-  return commenttail;
+  return texttail;
 }
 
 bool DbcLineParser::ParseCommentLine(Comment_t* cm, const std::string& line)
@@ -556,9 +547,7 @@ bool DbcLineParser::ParseCommentLine(Comment_t* cm, const std::string& line)
 
   if (line.size() > 0)
   {
-    const bool istail = TrackComment(line);
-
-    if (line.find("CM_") == 0 && !istail)
+    if (line.find("CM_") == 0 && !texttail)
     {
       commentline.clear();
       commentline = line;
@@ -570,7 +559,7 @@ bool DbcLineParser::ParseCommentLine(Comment_t* cm, const std::string& line)
     }
 
     // check if the current line last
-    if (commentline.size() > 0 && !commentopen && line.back() == ';')
+    if (commentline.size() > 0 && !textopen && line.back() == ';')
     {
       // set invalid target type as default return value
       cm->ca_target = CommentTarget::Undefined;
@@ -631,7 +620,7 @@ bool DbcLineParser::ParseAttributeLine(AttributeDescriptor_t* attr, const std::s
 
   if (line.size() > 0)
   {
-    if (line.find("BA_ ") == 0)
+    if (line.find("BA_ ") == 0 && !texttail)
     {
       attribline.clear();
       attribline = line;
@@ -642,7 +631,7 @@ bool DbcLineParser::ParseAttributeLine(AttributeDescriptor_t* attr, const std::s
     }
 
     // check if the current line is last
-    if (attribline.size() > 0 && line.back() == ';')
+    if (attribline.size() > 0 && !textopen && line.back() == ';')
     {
       attr->Type = AttributeType::Undefined;
       // raw line is ready
@@ -670,7 +659,7 @@ bool DbcLineParser::ParseValTableLine(Comment_t* comm, const std::string& line,
 
   if (line.size() > 0)
   {
-    if (line.find("VAL_ ") == 0)
+    if (line.find("VAL_ ") == 0 && !texttail)
     {
       valueline.clear();
       valueline = line;
@@ -681,7 +670,7 @@ bool DbcLineParser::ParseValTableLine(Comment_t* comm, const std::string& line,
     }
 
     // check if the current line is last
-    if (valueline.size() > 0 && line.back() == ';')
+    if (valueline.size() > 0 && !textopen && line.back() == ';')
     {
       // split all items by spaces and inside quotes.
       // after this step proper value items will have count >= 5
diff --git a/src/parser/dbclineparser.h b/src/parser/dbclineparser.h
index bbea19e..746ac7d 100644
--- a/src/parser/dbclineparser.h
+++ b/src/parser/dbclineparser.h
@@ -63,12 +63,10 @@ class DbcLineParser {
   // forgets all the lines which were not parsed up to the end
   void Reset();
 
-  // looks for multi-line comments, has to be called for each line once,
-  // returns @true if the line continues comment text from previous line
-  bool TrackComment(const std::string& line);
-
-  // returns @true if the last tracked line continues comment text
-  bool IsCommentTail() const;
+  // looks for multi-line texts (comments, value tables, attributes), has to be called
+  // once for each line before parsing, returns @true if the line continues text from
+  // previous line, so it is not a new statement whatever it looks like
+  bool TrackText(const std::string& line);
 
   // tries to parse comment information in line (or a few lines)
   // and loads result to cm struct, return @true if parsed ok
@@ -92,11 +90,11 @@ class DbcLineParser {
   // defines the type for the message struct member
   SigType GetSigType(SignalDescriptor_t* sig);
 
-  // comment text is not closed by the last tracked line
-  bool commentopen{false};
+  // text is not closed by the last tracked line
+  bool textopen{false};
 
-  // the last tracked line belongs to the comment started before
-  bool commenttail{false};
+  // the last tracked line belongs to the text started before
+  bool texttail{false};
 
   // string to collect comment dbc line
   std::string commentline;
diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index ee08e2b..0fb84c3 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -70,9 +70,9 @@ void DbcScanner::ParseMessageInfo(istream& readstrm)
   {
     sline = str_trim(sline);
 
-    if (lparser.TrackComment(sline))
+    if (lparser.TrackText(sline))
     {
-      // this is a part of comment text, whatever it looks like
+      // this is a part of some text, whatever it looks like
       continue;
     }
 
@@ -165,6 +165,8 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
   {
     sline = str_trim(sline);
 
+    lparser.TrackText(sline);
+
     if (lparser.ParseCommentLine(&cmmnt, sline))
     {
       // update message comment field
@@ -232,12 +234,6 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
       }
     }
 
-    if (lparser.IsCommentTail())
-    {
-      // this is a part of comment text, whatever it looks like
-      continue;
-    }
-
     if (lparser.ParseValTableLine(&cmmnt, sline, vals))
     {
       // update message comment field
-- 
2.43.0


From 1bc21260ddf400f147d1ee84feb0b01c8044a461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 28/46] fix: tell extended frames from standard ones in
 attributes and comments

---
 src/parser/dbclineparser.cpp | 11 ++++-------
 src/parser/dbcscanner.cpp    |  3 ++-
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 474f193..2378785 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -226,7 +226,7 @@ uint32_t DbcLineParser::ParseMultiTrans(std::vector<std::string>& outnodes, std:
 
   if (chunks.size() >= 3 && chunks[0] == "BO_TX_BU_")
   {
-    ret = clear_msgid(static_cast<uint32_t>(atoll(chunks[1].c_str())));
+    ret = static_cast<uint32_t>(atoll(chunks[1].c_str()));
 
     for (size_t i = 2; i < chunks.size(); i++)
     {
@@ -577,10 +577,7 @@ bool DbcLineParser::ParseCommentLine(Comment_t* cm, const std::string& line)
           // 1 CM_ marker
           // 2 target (message or signal)
           // 3 msg id
-          uint32_t id = static_cast<uint32_t>(atoll(meta[2].c_str()));
-
-          // clear message id from high 3 bits
-          cm->MsgId = clear_msgid(id);
+          cm->MsgId = static_cast<uint32_t>(atoll(meta[2].c_str()));
 
           if (meta[1] == "SG_" && meta.size() == 4)
           {
@@ -640,7 +637,7 @@ bool DbcLineParser::ParseAttributeLine(AttributeDescriptor_t* attr, const std::s
       if (items.size() > 4 && items[1] == "GenMsgCycleTime" && items[2] == "BO_")
       {
         attr->Type = AttributeType::CycleTime;
-        attr->MsgId = clear_msgid(static_cast<uint32_t>(atoll(items[3].c_str())));
+        attr->MsgId = static_cast<uint32_t>(atoll(items[3].c_str()));
         // read value of ms of cycle time for the current message
         attr->Value = atoi(items[4].c_str());
         ret = true;
@@ -679,7 +676,7 @@ bool DbcLineParser::ParseValTableLine(Comment_t* comm, const std::string& line,
 
       if ((items.size() >= 3) && (items.back() == ";") && (items.size() % 2 == 0))
       {
-        comm->MsgId = (clear_msgid(static_cast<uint32_t>(atoll(items[1].c_str()))));
+        comm->MsgId = static_cast<uint32_t>(atoll(items[1].c_str()));
         comm->SigName = items[2];
         comm->Text = "";
         comm->ca_target = CommentTarget::Signal;
diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 0fb84c3..41ba211 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -14,7 +14,8 @@ MessageDescriptor_t* find_message(vector<MessageDescriptor_t*> msgs, uint32_t ID
 {
   for (size_t i = 0; i < msgs.size(); i++)
   {
-    if (msgs[i]->MsgID == ID)
+    // standard and extended frames may have the same number
+    if ((msgs[i]->MsgID | (msgs[i]->IsExt ? 0x80000000U : 0U)) == ID)
     {
       // Frame found
       return msgs[i];
-- 
2.43.0


From 85b34df0e3beac06ad84f663b867872d9f604afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:03 +0000
Subject: [PATCH 29/46] fix: do not cut message IDs of attributes and comments
 to 32 bits

---
 src/parser/dbclineparser.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 2378785..70187e5 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -166,6 +166,15 @@ static uint32_t clear_msgid(uint32_t messageid)
   return messageid & 0x1FFFFFFFU;
 }
 
+// Returns message ID of the line which refers to the message. ID which
+// can not belong to any message is replaced by the invalid one
+static uint32_t parse_msgid(const std::string& text)
+{
+  const auto id = atoll(text.c_str());
+
+  return (id < 0 || id > UINT32_MAX) ? UINT32_MAX : static_cast<uint32_t>(id);
+}
+
 DbcLineParser::DbcLineParser()
 {
 }
@@ -226,7 +235,7 @@ uint32_t DbcLineParser::ParseMultiTrans(std::vector<std::string>& outnodes, std:
 
   if (chunks.size() >= 3 && chunks[0] == "BO_TX_BU_")
   {
-    ret = static_cast<uint32_t>(atoll(chunks[1].c_str()));
+    ret = parse_msgid(chunks[1]);
 
     for (size_t i = 2; i < chunks.size(); i++)
     {
@@ -577,7 +586,7 @@ bool DbcLineParser::ParseCommentLine(Comment_t* cm, const std::string& line)
           // 1 CM_ marker
           // 2 target (message or signal)
           // 3 msg id
-          cm->MsgId = static_cast<uint32_t>(atoll(meta[2].c_str()));
+          cm->MsgId = parse_msgid(meta[2]);
 
           if (meta[1] == "SG_" && meta.size() == 4)
           {
@@ -637,7 +646,7 @@ bool DbcLineParser::ParseAttributeLine(AttributeDescriptor_t* attr, const std::s
       if (items.size() > 4 && items[1] == "GenMsgCycleTime" && items[2] == "BO_")
       {
         attr->Type = AttributeType::CycleTime;
-        attr->MsgId = static_cast<uint32_t>(atoll(items[3].c_str()));
+        attr->MsgId = parse_msgid(items[3]);
         // read value of ms of cycle time for the current message
         attr->Value = atoi(items[4].c_str());
         ret = true;
@@ -676,7 +685,7 @@ bool DbcLineParser::ParseValTableLine(Comment_t* comm, const std::string& line,
 
       if ((items.size() >= 3) && (items.back() == ";") && (items.size() % 2 == 0))
       {
-        comm->MsgId = static_cast<uint32_t>(atoll(items[1].c_str()));
+        comm->MsgId = parse_msgid(items[1]);
         comm->SigName = items[2];
         comm->Text = "";
         comm->ca_target = CommentTarget::Signal;
-- 
2.43.0


From 4e8397c40c18cbbeb90b5a11c243681dd94332cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:55 +0000
Subject: [PATCH 30/46] fix: keep value table entries which exceed 32 bits

---
 src/codegen/c-main-generator.cpp | 4 ++--
 src/parser/dbclineparser.cpp     | 2 +-
 src/parser/dbcscanner.h          | 2 +-
 src/types/comment.h              | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index 04999ec..74575f2 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -250,9 +250,9 @@ void CiMainGenerator::Gen_MainHeader()
           // For this case only one of same named values will be available as macro
           fwriter.Append("#ifndef %s", defname.c_str());
 
-          fwriter.Append("#define %s_%s_%s (%d)",
+          fwriter.Append("#define %s_%s_%s (%lld)",
             s.Name.c_str(), m.Name.c_str(), s.ValDefs.vpairs[i].first.c_str(),
-            s.ValDefs.vpairs[i].second);
+            (long long)s.ValDefs.vpairs[i].second);
 
           fwriter.Append("#endif");
           fwriter.Append();
diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 70187e5..581ac2f 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -700,7 +700,7 @@ bool DbcLineParser::ParseValTableLine(Comment_t* comm, const std::string& line,
           comm->Text += items[valpair + 1] + '\n';
 
           auto valdef = make_c_name(items[valpair + 1]);
-          vtab.vpairs.push_back({valdef, (uint32_t)atoll((items[valpair + 0]).c_str())});
+          vtab.vpairs.push_back({valdef, atoll((items[valpair + 0]).c_str())});
         }
 
         if (comm->Text.size() > 0)
diff --git a/src/parser/dbcscanner.h b/src/parser/dbcscanner.h
index 146ba89..2884e80 100644
--- a/src/parser/dbcscanner.h
+++ b/src/parser/dbcscanner.h
@@ -32,6 +32,6 @@ class DbcScanner {
   DbcLineParser lparser;
 
   // this variable is used for gathering value table signal's information
-  std::pair<std::string, uint32_t> vpairs;
+  std::pair<std::string, int64_t> vpairs;
 
 };
diff --git a/src/types/comment.h b/src/types/comment.h
index 4af34fe..0d3cf12 100644
--- a/src/types/comment.h
+++ b/src/types/comment.h
@@ -40,6 +40,6 @@ struct ValTable_t
   std::string SigName;
 
   /// @brief Value table names and values pairs
-  std::vector<std::pair<std::string, uint32_t>> vpairs{};
+  std::vector<std::pair<std::string, int64_t>> vpairs{};
 
 };
-- 
2.43.0


From c5c9129e9baee39630fba4bf96df6e1e704137ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:00 +0000
Subject: [PATCH 31/46] fix: do not mix initial byte value with signals

---
 src/codegen/c-main-generator.cpp | 11 ++++++++++-
 src/codegen/c-sigprinter.cpp     | 20 ++++++++++++++++++++
 src/types/c-expr.h               |  4 ++++
 3 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index 74575f2..99bbfe1 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -892,7 +892,16 @@ void CiMainGenerator::PrintPackCommonText(const std::string& arrtxt, const CiExp
       continue;
     }
 
-    fwriter.Append("  %s[%d] |= (uint8_t) ( %s );", arrtxt.c_str(), i, sgs->to_bytes[i].c_str());
+    if (sgs->bytes_masks[i] != 0xFFu)
+    {
+      // initial byte value is kept only in the bits which do not belong to signals
+      fwriter.Append("  %s[%d] &= (uint8_t) ( 0x%02XU );", arrtxt.c_str(), i, (uint8_t)~sgs->bytes_masks[i]);
+      fwriter.Append("  %s[%d] |= (uint8_t) ( %s );", arrtxt.c_str(), i, sgs->to_bytes[i].c_str());
+    }
+    else
+    {
+      fwriter.Append("  %s[%d] = (uint8_t) ( %s );", arrtxt.c_str(), i, sgs->to_bytes[i].c_str());
+    }
   }
 
   fwriter.Append("");
diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index 75b4ab8..f4b2dd5 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -41,6 +41,23 @@ static std::string IntegerConversionCast(const SignalDescriptor_t* sig)
   return phys_64 ? ("(" + PrintType((uint8_t)sig->TypePhys) + ")") : "";
 }
 
+/// @brief Marks all the bits of the signal in masks of frame bytes
+static void AddSignalToMasks(const SignalDescriptor_t* sig, std::vector<uint8_t>& masks)
+{
+  int64_t bit = sig->StartBit;
+
+  for (int32_t i = 0; i < sig->LengthBit; i++)
+  {
+    if (bit / 8 < (int64_t)masks.size())
+    {
+      masks[bit / 8] |= (uint8_t)(1u << (bit % 8));
+    }
+
+    // next bit to the end of the frame
+    bit += (sig->Order == BitLayout::kIntel) ? 1 : ((bit % 8 == 0) ? 15 : -1);
+  }
+}
+
 CSigPrinter::CSigPrinter()
 {
   sigs_expr.clear();
@@ -157,6 +174,7 @@ int32_t CSigPrinter::BuildCConvertExprs(CiExpr_t* msgprinter)
   msgprinter->to_bytes.clear();
   msgprinter->to_signals.clear();
   msgprinter->to_bytes.resize(msgprinter->msg.DLC);
+  msgprinter->bytes_masks.assign(msgprinter->msg.DLC, 0u);
 
   // for each signal specific to_signal expression must be defined,
   // and during all signals processing, for each byte to_byte expression
@@ -181,6 +199,8 @@ int32_t CSigPrinter::BuildCConvertExprs(CiExpr_t* msgprinter)
     // bytes expression is saved to vector @to_bytes, where id is the
     // byte number in frame payload (i.e. to_bytes.size() == frame.DLC)
     msgprinter->to_signals.push_back(PrintSignalExpr(&msgprinter->msg.Signals[i], msgprinter->to_bytes));
+
+    AddSignalToMasks(&msgprinter->msg.Signals[i], msgprinter->bytes_masks);
   }
 
   if (msgprinter->msg.CsmSig != nullptr)
diff --git a/src/types/c-expr.h b/src/types/c-expr.h
index 996cca8..6012f4e 100644
--- a/src/types/c-expr.h
+++ b/src/types/c-expr.h
@@ -18,4 +18,8 @@ typedef struct
   // frame fields to data bytes
   std::vector<std::string> to_bytes;
 
+  // this field contains masks of the bits which belong
+  // to signals for each data byte
+  std::vector<uint8_t> bytes_masks;
+
 } CiExpr_t;
\ No newline at end of file
-- 
2.43.0


From 65aadb6f85ef2c2313195d29a16ae55fd68ea3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:10 +0000
Subject: [PATCH 32/46] fix: do not mix extended and standard frames in node
 utils

---
 src/app.cpp                      | 6 +++---
 src/codegen/c-util-generator.cpp | 6 +++---
 src/parser/dbcscanner.cpp        | 3 +--
 src/types/message.h              | 7 +++++++
 4 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/app.cpp b/src/app.cpp
index 22ff14c..49c7a9b 100644
--- a/src/app.cpp
+++ b/src/app.cpp
@@ -217,7 +217,7 @@ void CoderApp::GenerateCode()
         if (found)
         {
           // Message is in Tx array of current node
-          groups.Tx.push_back(m->MsgID);
+          groups.Tx.push_back(FullMsgID(*m));
         }
 
         found = (std::find(m->RecS.begin(), m->RecS.end(), nodes[node]) != m->RecS.end());
@@ -225,7 +225,7 @@ void CoderApp::GenerateCode()
         if (found)
         {
           // Message is in Rx array of current node
-          groups.Rx.push_back(m->MsgID);
+          groups.Rx.push_back(FullMsgID(*m));
         }
       }
 
@@ -241,7 +241,7 @@ void CoderApp::GenerateCode()
 
     for (size_t i = 0; i < scanner.dblist.msgs.size(); i++)
     {
-      groups.Rx.push_back(scanner.dblist.msgs[i]->MsgID);
+      groups.Rx.push_back(FullMsgID(*scanner.dblist.msgs[i]));
     }
 
     if (ret)
diff --git a/src/codegen/c-util-generator.cpp b/src/codegen/c-util-generator.cpp
index 9db35ab..0a9b97e 100644
--- a/src/codegen/c-util-generator.cpp
+++ b/src/codegen/c-util-generator.cpp
@@ -46,7 +46,7 @@ void CiUtilGenerator::Generate(DbcMessageList_t& dlist, const AppSettings_t& fsd
 
     auto v = std::find_if(groups.Both.begin(), groups.Both.end(), [&](const uint32_t& msgid)
     {
-      return msgid == m->MsgID;
+      return msgid == FullMsgID(*m);
     });
 
     if (v != std::end(groups.Both))
@@ -59,7 +59,7 @@ void CiUtilGenerator::Generate(DbcMessageList_t& dlist, const AppSettings_t& fsd
 
     v = std::find_if(groups.Rx.begin(), groups.Rx.end(), [&](const uint32_t& msgid)
     {
-      return msgid == m->MsgID;
+      return msgid == FullMsgID(*m);
     });
 
     if (v != std::end(groups.Rx))
@@ -69,7 +69,7 @@ void CiUtilGenerator::Generate(DbcMessageList_t& dlist, const AppSettings_t& fsd
 
     v = std::find_if(groups.Tx.begin(), groups.Tx.end(), [&](const uint32_t& msgid)
     {
-      return msgid == m->MsgID;
+      return msgid == FullMsgID(*m);
     });
 
     if (v != std::end(groups.Tx))
diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 41ba211..bf2c5c2 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -14,8 +14,7 @@ MessageDescriptor_t* find_message(vector<MessageDescriptor_t*> msgs, uint32_t ID
 {
   for (size_t i = 0; i < msgs.size(); i++)
   {
-    // standard and extended frames may have the same number
-    if ((msgs[i]->MsgID | (msgs[i]->IsExt ? 0x80000000U : 0U)) == ID)
+    if (FullMsgID(*msgs[i]) == ID)
     {
       // Frame found
       return msgs[i];
diff --git a/src/types/message.h b/src/types/message.h
index b96e1a5..9f3344f 100644
--- a/src/types/message.h
+++ b/src/types/message.h
@@ -152,6 +152,13 @@ typedef struct
 
 } MessageDescriptor_t;
 
+/// @brief Message ID with the extended frame mark, standard and extended frames
+/// may have the same number
+inline uint32_t FullMsgID(const MessageDescriptor_t& m)
+{
+  return m.MsgID | (m.IsExt ? 0x80000000U : 0U);
+}
+
 typedef struct
 {
   std::vector<uint32_t> Rx;
-- 
2.43.0


From 7168f847a9af4ede91b1055ffb9f43cf5f9137e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:43 +0000
Subject: [PATCH 33/46] fix: keep the order of extended and standard frames
 with the same number

---
 src/codegen/c-main-generator.cpp | 2 +-
 src/codegen/c-util-generator.cpp | 4 ++--
 src/types/message.h              | 6 ++++++
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index 99bbfe1..b390874 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -70,7 +70,7 @@ void CiMainGenerator::Generate(DbcMessageList_t& dlist, const AppSettings_t& fsd
   std::sort(sigprt.sigs_expr.begin(), sigprt.sigs_expr.end(),
     [](const CiExpr_t* a, const CiExpr_t* b) -> bool
   {
-    return a->msg.MsgID < b->msg.MsgID;
+    return IsMsgBefore(a->msg, b->msg);
   });
 
   // 2 step is to print main head file
diff --git a/src/codegen/c-util-generator.cpp b/src/codegen/c-util-generator.cpp
index 0a9b97e..53e5a47 100644
--- a/src/codegen/c-util-generator.cpp
+++ b/src/codegen/c-util-generator.cpp
@@ -80,12 +80,12 @@ void CiUtilGenerator::Generate(DbcMessageList_t& dlist, const AppSettings_t& fsd
 
   std::sort(rx.begin(), rx.end(), [&](const MessageDescriptor_t* a, const MessageDescriptor_t* b)
   {
-    return a->MsgID < b->MsgID;
+    return IsMsgBefore(*a, *b);
   });
 
   std::sort(tx.begin(), tx.end(), [&](const MessageDescriptor_t* a, const MessageDescriptor_t* b)
   {
-    return a->MsgID < b->MsgID;
+    return IsMsgBefore(*a, *b);
   });
 
   fdesc = &fsd.file;
diff --git a/src/types/message.h b/src/types/message.h
index 9f3344f..8bf21be 100644
--- a/src/types/message.h
+++ b/src/types/message.h
@@ -159,6 +159,12 @@ inline uint32_t FullMsgID(const MessageDescriptor_t& m)
   return m.MsgID | (m.IsExt ? 0x80000000U : 0U);
 }
 
+/// @brief Order of messages in the generated code, it does not depend on the order in DBC file
+inline bool IsMsgBefore(const MessageDescriptor_t& a, const MessageDescriptor_t& b)
+{
+  return (a.MsgID != b.MsgID) ? (a.MsgID < b.MsgID) : (a.IsExt < b.IsExt);
+}
+
 typedef struct
 {
   std::vector<uint32_t> Rx;
-- 
2.43.0


From 93580966013a1240170f52dad5d022a6a3ed4ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:35 +0000
Subject: [PATCH 34/46] fix: do not duplicate physical field of scaled rolling
 counters

---
 src/codegen/c-main-generator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index b390874..87f443a 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -276,6 +276,9 @@ void CiMainGenerator::Gen_MainHeader()
       rollsig = (*m.RollSig);
       rollsig.CommentText = "";
       rollsig.Name += "_expt";
+      // expected value is always the raw one
+      rollsig.IsSimpleSig = true;
+      rollsig.IsDoubleSig = false;
     }
 
     for (size_t signum = 0; signum < m.Signals.size(); signum++)
-- 
2.43.0


From 79577c01aad26b3068d2946d33336cff9879bf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:18 +0000
Subject: [PATCH 35/46] fix: do not take value descriptions for signals

---
 src/parser/dbclineparser.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 581ac2f..cd3d570 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -249,9 +249,10 @@ uint32_t DbcLineParser::ParseMultiTrans(std::vector<std::string>& outnodes, std:
 
 bool DbcLineParser::IsSignalLine(const std::string& line)
 {
-  const std::regex sigMatch("\\s+SG_");
-  bool ret = std::regex_search(line, sigMatch);
-  return ret;
+  // the mark must be the first word of the line, any other one belongs to some text
+  const auto pos = line.find_first_not_of("\t\n\v\f\r ");
+
+  return pos != std::string::npos && pos > 0 && line.compare(pos, 3, "SG_") == 0;
 }
 
 bool DbcLineParser::ParseSignalLine(SignalDescriptor_t* sig, const std::string& line)
-- 
2.43.0


From b1643a942ca56374a02cc927de937ffe1ab92505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:08 +0000
Subject: [PATCH 36/46] fix: do not take lines of multi-line value descriptions
 for statements

---
 src/parser/dbclineparser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index cd3d570..e544bc1 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -537,7 +537,10 @@ bool DbcLineParser::TrackText(const std::string& line)
   const bool istext = (quotes == 0) || (quotes == 1 && closed);
   const bool isstart = (line.find("CM_") == 0) || (line.find("VAL_ ") == 0) || (line.find("BA_ ") == 0);
 
-  texttail = textopen && !(isstart && !istext);
+  // text which was not closed (the file is damaged) ends before the next complete statement
+  const bool isnext = isstart && !istext && (quotes % 2 == 0) && (line.back() == ';');
+
+  texttail = textopen && !isnext;
 
   if (texttail)
   {
-- 
2.43.0


From c820e073f64524c7b125587a404eca02829fb5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 37/46] fix: do not cut long generated lines

---
 src/codegen/filewriter.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/codegen/filewriter.cpp b/src/codegen/filewriter.cpp
index ba27e10..3076c66 100644
--- a/src/codegen/filewriter.cpp
+++ b/src/codegen/filewriter.cpp
@@ -5,20 +5,24 @@
 #include <assert.h>
 #include "filewriter.h"
 
-template<size_t N = 10000>
 std::string __print_loc__(const char* format, va_list args)
 {
-  char work_buff[N] = {0};
-  auto ret = vsnprintf(work_buff, N, format, args);
+  va_list lenargs;
+  va_copy(lenargs, args);
+  auto len = vsnprintf(nullptr, 0, format, lenargs);
+  va_end(lenargs);
 
-  if (ret >= N)
+  if (len <= 0)
   {
-    std::cout << "Attention (!) the line has been shortened : " << std::endl;
-    std::cout << work_buff << std::endl;
+    return "";
   }
 
-  // make string from local array
-  return work_buff;
+  // the line may have any length (e.g. byte shared by lots of multiplexed signals)
+  std::string line(len + 1, '\0');
+  vsnprintf(&line[0], line.size(), format, args);
+  line.resize(len);
+
+  return line;
 }
 
 void FileWriter::Flush()
-- 
2.43.0


From cd2ef0b5595082345fe4aef4f0eedd0de1681838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 38/46] fix: do not mix up signals X and X_ro when looking up
 comments and value tables

---
 src/parser/dbcscanner.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index bf2c5c2..4d98b27 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -24,6 +24,12 @@ MessageDescriptor_t* find_message(vector<MessageDescriptor_t*> msgs, uint32_t ID
   return nullptr;
 }
 
+/// @brief Tests if the signal has the name @name in DBC file, all not simple signals got additional "_ro"
+static bool IsSignalNamed(const SignalDescriptor_t& sig, const std::string& name)
+{
+  return sig.Name == (sig.IsSimpleSig ? name : name + "_ro");
+}
+
 DbcScanner::DbcScanner()
 {
   dblist.maxDlcValue = 0u;
@@ -184,7 +190,7 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
         {
           for (size_t i = 0; i < msg->Signals.size(); i++)
           {
-            if ((cmmnt.SigName == msg->Signals[i].Name) || ((cmmnt.SigName + "_ro") == msg->Signals[i].Name))
+            if (IsSignalNamed(msg->Signals[i], cmmnt.SigName))
             {
               SignalDescriptor_t& sig = msg->Signals[i];
               // signal has been found, update commnet text
@@ -251,7 +257,7 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
         {
           for (size_t i = 0; i < msg->Signals.size(); i++)
           {
-            if ((cmmnt.SigName == msg->Signals[i].Name) || ((cmmnt.SigName + "_ro") == msg->Signals[i].Name))
+            if (IsSignalNamed(msg->Signals[i], cmmnt.SigName))
             {
               // signal has been found, update commnet text
               msg->Signals[i].ValueText = cmmnt.Text;
-- 
2.43.0


From 64169275b34b5bce7d1d0c8d447eb088f01a428e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:41 +0000
Subject: [PATCH 39/46] fix: do not cut large integer factors and offsets in
 the signal comments

---
 src/codegen/c-main-generator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index 87f443a..d97fcbc 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -671,14 +671,14 @@ void CiMainGenerator::WriteSigStructField(const SignalDescriptor_t& sig, bool bi
     {
       infocmnt = IndentedString(offset, infocmnt);
       offset += 27;
-      infocmnt += StrPrint(" Offset= %d", (int)sig.Offset);
+      infocmnt += StrPrint(" Offset= %lld", (long long)sig.Offset);
     }
 
     if (sig.Factor != 1)
     {
       infocmnt = IndentedString(offset, infocmnt);
       offset += 24;
-      infocmnt += StrPrint(" Factor= %d", (int)sig.Factor);
+      infocmnt += StrPrint(" Factor= %lld", (long long)sig.Factor);
     }
   }
 
-- 
2.43.0


From 6b862006704324f38e8d09edac675e5e7b371d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:53 +0000
Subject: [PATCH 40/46] fix: evaluate scaled signals with 32-bit unsigned
 physical values without signed overflow

---
 src/codegen/c-sigprinter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index f4b2dd5..3af691d 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -38,7 +38,10 @@ static std::string IntegerConversionCast(const SignalDescriptor_t* sig)
     return "(int64_t)";
   }
 
-  return phys_64 ? ("(" + PrintType((uint8_t)sig->TypePhys) + ")") : "";
+  // raw values of up to 16 bits are promoted to signed (int)
+  const bool phys_u32 = (sig->TypePhys == SigType::u32 && scaled_max + std::fabs(sig->Offset) > INT32_MAX);
+
+  return (phys_64 || phys_u32) ? ("(" + PrintType((uint8_t)sig->TypePhys) + ")") : "";
 }
 
 /// @brief Marks all the bits of the signal in masks of frame bytes
-- 
2.43.0


From 93f82e1330be5af5689785c714c44782c4b19ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:04 +0000
Subject: [PATCH 41/46] fix: give the value of fromS macros the type of the
 physical value

---
 src/codegen/c-sigprinter.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index 3af691d..f9f9c53 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -149,20 +149,22 @@ std::string CSigPrinter::PrintPhysicalToRaw(const SignalDescriptor_t* sig, const
   }
   else
   {
+    const std::string prtPhys = PrintType((uint8_t)sig->TypePhys);
+
     if (sig->Offset == 0)
     {
       // only factor
-      retstr += StrPrint("(%s(x) * (%lld)) )\n", prtCast.c_str(), (long long)sig->Factor);
+      retstr += StrPrint("(%s) (%s(x) * (%lld)) )\n", prtPhys.c_str(), prtCast.c_str(), (long long)sig->Factor);
     }
     else if (sig->Factor == 1)
     {
       // only offset
-      retstr += StrPrint("(%s(x) + (%lld)) )\n", prtCast.c_str(), (long long)sig->Offset);
+      retstr += StrPrint("(%s) (%s(x) + (%lld)) )\n", prtPhys.c_str(), prtCast.c_str(), (long long)sig->Offset);
     }
     else
     {
       // full expression
-      retstr += StrPrint("((%s(x) * (%lld)) + (%lld)) )\n", prtCast.c_str(), (long long)sig->Factor, (long long)sig->Offset);
+      retstr += StrPrint("(%s) ((%s(x) * (%lld)) + (%lld)) )\n", prtPhys.c_str(), prtCast.c_str(), (long long)sig->Factor, (long long)sig->Offset);
     }
   }
 
-- 
2.43.0


From 4c417261fa242012f6e44e9105478230da410b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:48 +0000
Subject: [PATCH 42/46] fix: do not generate from a DBC file which could not be
 read to its end

---
 src/app.cpp               | 7 ++++++-
 src/parser/dbcscanner.cpp | 8 +++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/app.cpp b/src/app.cpp
index 49c7a9b..52f43f5 100644
--- a/src/app.cpp
+++ b/src/app.cpp
@@ -103,7 +103,12 @@ void CoderApp::GenerateCode()
     exit(1);
   }
 
-  scanner.TrimDbcText(file);
+  if (scanner.TrimDbcText(file) != 0)
+  {
+    std::cerr << "Unable to read DBC file" << std::endl;
+    exit(1);
+  }
+
   file.close();
 
   auto filename = ExtractFileName(Params.dbc.first);
diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 4d98b27..635f0ae 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -51,6 +51,12 @@ int32_t DbcScanner::TrimDbcText(istream& readstrm)
   // and fill @msgs collection
   ParseMessageInfo(readstrm);
 
+  if (readstrm.bad())
+  {
+    // the rest of the source can't be read
+    return -1;
+  }
+
   // all the messages and signals were read from source
   // scan it one more time to define all attributes and
   // more additional information
@@ -62,7 +68,7 @@ int32_t DbcScanner::TrimDbcText(istream& readstrm)
   // and update specific fields in messages
   ParseOtherInfo(readstrm);
 
-  return 0;
+  return readstrm.bad() ? -1 : 0;
 }
 
 
-- 
2.43.0


From fa77d586f3c5f6aacb56600fd93986e8f9107b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:51 +0000
Subject: [PATCH 43/46] fix: report files and directories which could not be
 written instead of claiming completion

---
 src/app.cpp                |  3 ++-
 src/codegen/filewriter.cpp | 11 ++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/app.cpp b/src/app.cpp
index 52f43f5..61e9c3d 100644
--- a/src/app.cpp
+++ b/src/app.cpp
@@ -156,7 +156,8 @@ void CoderApp::GenerateCode()
   }
   else
   {
-    std::cout << "One or both are invalid\n";
+    std::cerr << "Unable to create output directories" << std::endl;
+    exit(1);
   }
 
   // check if option --node-utils is requested, when requested binutil generation
diff --git a/src/codegen/filewriter.cpp b/src/codegen/filewriter.cpp
index 3076c66..9a3025d 100644
--- a/src/codegen/filewriter.cpp
+++ b/src/codegen/filewriter.cpp
@@ -27,6 +27,7 @@ std::string __print_loc__(const char* format, va_list args)
 
 void FileWriter::Flush()
 {
+  strm.str("");
   strm.clear();
 }
 
@@ -34,8 +35,16 @@ void FileWriter::Flush(const std::string& fpath)
 {
   std::ofstream wfile;
   wfile.open(fpath, std::ios::out);
-  wfile << strm.rdbuf();
+  wfile << strm.str();
   wfile.close();
+
+  if (!wfile)
+  {
+    // incomplete package must not be taken for a complete one
+    std::cerr << "Unable to write " << fpath << std::endl;
+    exit(1);
+  }
+
   Flush();
 }
 
-- 
2.43.0


From 2df141c3d295f36caf3d290cf850e48275045c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:09 +0000
Subject: [PATCH 44/46] fix: do not let line breaks in the DBC file name reach
 the generated code

---
 src/app.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/app.cpp b/src/app.cpp
index 61e9c3d..e738988 100644
--- a/src/app.cpp
+++ b/src/app.cpp
@@ -112,6 +112,8 @@ void CoderApp::GenerateCode()
   file.close();
 
   auto filename = ExtractFileName(Params.dbc.first);
+  // the file name is printed to one-line comment, line breaks would put its rest to the code
+  std::replace_if(filename.begin(), filename.end(), [](char c) { return c == '\n' || c == '\r'; }, '_');
   // get current time
   std::time_t now = std::time(nullptr);
   // convert to local time
-- 
2.43.0


From 50ed1e7fb002d542f46b5e2e7491578d62fbc186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:59 +0000
Subject: [PATCH 45/46] fix: parse lines of any length, do not apply recursive
 regex to them

---
 src/parser/dbclineparser.cpp | 67 +++++++++++++++++++-----------------
 src/parser/dbcscanner.cpp    | 54 ++++++++++++++++++-----------
 2 files changed, 70 insertions(+), 51 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index e544bc1..f71260b 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -17,24 +17,13 @@ static const std::string regMessage = "[^A-Za-z0-9_.-]";
 static const std::string MessageLineStart = "BO_ ";
 
 // Signal line definitions
-static const std::string kRegSigReceivers = "[^A-Za-z0-9_.+-]+";
-static const std::string kRegSigSplit0 = "[^\\w]+";
-static const std::string kRegSigSplit1 = "(\\s+:\\s+)";
-static const std::string kregSigSplit2 = "(\")";
+static const char kSigDelimiter = ':';
+static const std::string kSigWordChars = "_.+-";
 
-// This reg splits line to parts delimited by (")
-static const std::string kRegCommMain = "\"";
-static const std::string kRegCommMeta = "[ ]+";
+// Lines are split to parts delimited by (")
+static const char kTextQuote = '"';
 
-static const std::string kTransmittersList = "[^a-zA-Z_0-9]+";
-
-// Regex template to split string by spaces BUT NOT what inside quotes OR apostrophes
-// [^\s"']+|"([^"]*)"|'([^']*)'
-
-// Reges template to split string by spaces BUT NOT what inside quotes
-// [^\s"]+|"([^"]*)"
-
-static const std::string kRegValTable = "[^\\s\"]+|\"([^\"]*)\"";
+static const std::string kTransmittersWordChars = "_";
 
 static uint64_t __maxunsigvalues[] =
 {
@@ -78,16 +67,16 @@ std::vector<std::string> resplit(const std::string& s, const std::string& rgx_st
   return elems;
 }
 
-// Splits attribute text on words. Attribute may be spread over any count of lines,
-// so regex (which is recursive) must not be used on it
-static std::vector<std::string> split_attribute(const std::string& s)
+// Splits text on words made of letters, digits and the passed characters. Lines may have
+// any length, so regex (which is recursive) must not be used on them
+static std::vector<std::string> split_words(const std::string& s, const std::string& chars)
 {
   std::vector<std::string> elems;
   bool inword = false;
 
   for (const char c : s)
   {
-    const bool wordchar = isalnum(static_cast<unsigned char>(c)) || c == '_' || c == '.';
+    const bool wordchar = isalnum(static_cast<unsigned char>(c)) || chars.find(c) != std::string::npos;
 
     if (wordchar && !inword)
     {
@@ -105,6 +94,22 @@ static std::vector<std::string> split_attribute(const std::string& s)
   return elems;
 }
 
+// Splits text on parts delimited by the character, there is no part behind the last one
+static std::vector<std::string> split_parts(const std::string& s, char delimiter)
+{
+  std::vector<std::string> elems;
+  size_t pos = 0;
+
+  while (pos < s.size())
+  {
+    const size_t end = std::min(s.find(delimiter, pos), s.size());
+    elems.push_back(s.substr(pos, end - pos));
+    pos = end + 1;
+  }
+
+  return elems;
+}
+
 // Splits value table text on items: separated by spaces or placed inside quotes
 // (they are kept). As well as attribute it must not be processed by regex
 static std::vector<std::string> split_valtable(const std::string& s)
@@ -231,9 +236,9 @@ uint32_t DbcLineParser::ParseMultiTrans(std::vector<std::string>& outnodes, std:
 {
   uint32_t ret = 0;
 
-  auto chunks = resplit(line, kTransmittersList, -1);
+  auto chunks = split_words(line, kTransmittersWordChars);
 
-  if (chunks.size() >= 3 && chunks[0] == "BO_TX_BU_")
+  if (chunks.size() >= 3 && chunks[0] == "BO_TX_BU_" && line.find(chunks[0]) == 0)
   {
     ret = parse_msgid(chunks[1]);
 
@@ -258,15 +263,15 @@ bool DbcLineParser::IsSignalLine(const std::string& line)
 bool DbcLineParser::ParseSignalLine(SignalDescriptor_t* sig, const std::string& line)
 {
   // split line in two parts by the first delimiter (the others belong to unit)
-  std::smatch delimiter;
+  const auto delimiter = line.find(kSigDelimiter);
 
-  if (!std::regex_search(line, delimiter, std::regex(kRegSigSplit1)))
+  if (delimiter == std::string::npos)
   {
     return false;
   }
 
   // split tail
-  auto tailpart = resplit(delimiter.suffix(), kregSigSplit2, -1);
+  auto tailpart = split_parts(line.substr(delimiter + 1), kTextQuote);
 
   if (tailpart.empty())
   {
@@ -274,9 +279,9 @@ bool DbcLineParser::ParseSignalLine(SignalDescriptor_t* sig, const std::string&
   }
 
   // split middle part on dedicated values
-  auto valpart = resplit(trim(tailpart[0]), kRegSigReceivers, -1);
+  auto valpart = split_words(tailpart[0], kSigWordChars);
 
-  auto halfs = resplit(delimiter.prefix(), kRegValTable, 0);
+  auto halfs = split_valtable(line.substr(0, delimiter));
 
   if (halfs.size() >= 2)
   {
@@ -387,7 +392,7 @@ bool DbcLineParser::ParseSignalLine(SignalDescriptor_t* sig, const std::string&
     // part 2 is the measure unit
     sig->Unit = tailpart[1];
     // part 3 is the list of RX modules
-    auto recs = resplit(trim(tailpart[2]), kRegSigReceivers, -1);
+    auto recs = split_words(tailpart[2], kSigWordChars);
 
     for (size_t i = 0; i < recs.size(); i++)
     {
@@ -578,12 +583,12 @@ bool DbcLineParser::ParseCommentLine(Comment_t* cm, const std::string& line)
       cm->ca_target = CommentTarget::Undefined;
 
       // comment line must have 3 part: meta, text, semicolon
-      auto items = resplit(commentline, kRegCommMain, -1);
+      auto items = split_parts(commentline, kTextQuote);
 
       if (items.size() == 3)
       {
         // part 1 (meta) contains service fields
-        auto meta = resplit(items[0], kRegCommMeta, -1);
+        auto meta = split_valtable(items[0]);
 
         if (meta.size() >= 3)
         {
@@ -645,7 +650,7 @@ bool DbcLineParser::ParseAttributeLine(AttributeDescriptor_t* attr, const std::s
     {
       attr->Type = AttributeType::Undefined;
       // raw line is ready
-      auto items = split_attribute(attribline);
+      auto items = split_words(attribline, "_.");
 
       if (items.size() > 4 && items[1] == "GenMsgCycleTime" && items[2] == "BO_")
       {
diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 635f0ae..b9f9c8c 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -361,31 +361,45 @@ void DbcScanner::SetDefualtMessage(MessageDescriptor_t* message)
 /// @return The number of successfully matched parts (0 if the pattern did not match).
 static bool ParseVersionLine(const std::string& line, std::string& str, uint32_t& num1, uint32_t& num2)
 {
-  std::regex pattern("([a-zA-Z]+)\\s*\"?(\\d+)\\D+(\\d+)\"?");
-  std::smatch matches;
+  // the line may have any length, so regex (which is recursive) must not be used on it
+  static const std::string digits = "0123456789";
+  static const std::string spaces = "\t\n\v\f\r ";
 
-  // try to match the regex pattern to the input line
-  if (std::regex_match(line, matches, pattern))
+  const size_t strend = std::find_if_not(line.begin(), line.end(), [](unsigned char c) { return std::isalpha(c); }) - line.begin();
+
+  // first number, it can be inside quotes
+  size_t begin1 = std::min(line.find_first_not_of(spaces, strend), line.size());
+
+  if (begin1 < line.size() && line[begin1] == '"')
   {
-    if (matches.size() == 4)
-    {
-      // 1 for the whole match and 3 for the capture groups
-      str = matches[1].str();
-      auto val1 = std::strtoull(matches[2].str().c_str(), nullptr, 10);
-      auto val2 = std::strtoull(matches[3].str().c_str(), nullptr, 10);
+    ++begin1;
+  }
 
-      if (val1 <= UINT32_MAX && val2 <= UINT32_MAX)
-      {
-        num1 = static_cast<uint32_t>(val1);
-        num2 = static_cast<uint32_t>(val2);
-        // successfully matched all three parts
-        return true;
-      }
-    }
+  const size_t end1 = std::min(line.find_first_not_of(digits, begin1), line.size());
+
+  // second number, any other text stands between them
+  const size_t begin2 = std::min(line.find_first_of(digits, end1), line.size());
+  const size_t end2 = std::min(line.find_first_not_of(digits, begin2), line.size());
+
+  if (strend == 0 || begin1 == end1 || begin2 == end2 || (end2 != line.size() && line.compare(end2, std::string::npos, "\"") != 0))
+  {
+    // not all the parts were found
+    return false;
+  }
+
+  const auto val1 = std::strtoull(line.substr(begin1, end1 - begin1).c_str(), nullptr, 10);
+  const auto val2 = std::strtoull(line.substr(begin2, end2 - begin2).c_str(), nullptr, 10);
+
+  if (val1 > UINT32_MAX || val2 > UINT32_MAX)
+  {
+    return false;
   }
 
-  // pattern did not match or some parts were not matched
-  return false;
+  str = line.substr(0, strend);
+  num1 = static_cast<uint32_t>(val1);
+  num2 = static_cast<uint32_t>(val2);
+  // successfully matched all three parts
+  return true;
 }
 
 void DbcScanner::FindVersion(const std::string& line)
-- 
2.43.0


From a45115bbfc265fc7aef285618237fcba423d9ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:06 +0000
Subject: [PATCH 46/46] fix: accept any white space between the parts of
 statements

---
 src/parser/dbclineparser.cpp | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index f71260b..529d2d9 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -13,8 +13,8 @@
 constexpr double MIN_FAC_OFF = 0.000000001;
 
 // Message line definitions
-static const std::string regMessage = "[^A-Za-z0-9_.-]";
-static const std::string MessageLineStart = "BO_ ";
+static const std::string kMessageWordChars = "_.-";
+static const std::string kMessageLineStart = "BO_";
 
 // Signal line definitions
 static const char kSigDelimiter = ':';
@@ -180,31 +180,33 @@ static uint32_t parse_msgid(const std::string& text)
   return (id < 0 || id > UINT32_MAX) ? UINT32_MAX : static_cast<uint32_t>(id);
 }
 
+// Tests if the keyword is the first word of the line
+static bool is_statement(const std::string& line, const std::string& keyword)
+{
+  return line.size() > keyword.size() && line.compare(0, keyword.size(), keyword) == 0 &&
+    (line[keyword.size()] == ' ' || line[keyword.size()] == '\t');
+}
+
 DbcLineParser::DbcLineParser()
 {
 }
 
 bool DbcLineParser::IsMessageLine(const std::string& line)
 {
-  if (line.find(MessageLineStart) == 0)
-  {
-    return true;
-  }
-
-  return false;
+  return is_statement(line, kMessageLineStart);
 }
 
 bool DbcLineParser::ParseMessageLine(MessageDescriptor_t* msg, const std::string& line)
 {
   // Parse DBC message line
-  auto items = resplit(line, regMessage, -1);
+  auto items = split_words(line, kMessageWordChars);
 
-  if (items.size() < 5)
+  if (items.size() < 4 || line.find(':') == std::string::npos)
   {
     return false;
   }
 
-  std::string txname = (items.size() >= 6) ? (items[5]) : ("");
+  std::string txname = (items.size() >= 5) ? (items[4]) : ("");
 
   if (!txname.empty())
   {
@@ -214,7 +216,7 @@ bool DbcLineParser::ParseMessageLine(MessageDescriptor_t* msg, const std::string
   msg->Name = items[2];
 
   const auto id = atoll(items[1].c_str());
-  const auto dlc = atoll(items[4].c_str());
+  const auto dlc = atoll(items[3].c_str());
 
   if (id < 0 || id > UINT32_MAX || (id & 0x60000000) != 0 || dlc < 1 || dlc > CONF_LIMIT_MAX_DLC)
   {
@@ -540,7 +542,7 @@ bool DbcLineParser::TrackText(const std::string& line)
 
   // text line has no quotes, except of the closing one
   const bool istext = (quotes == 0) || (quotes == 1 && closed);
-  const bool isstart = (line.find("CM_") == 0) || (line.find("VAL_ ") == 0) || (line.find("BA_ ") == 0);
+  const bool isstart = (line.find("CM_") == 0) || is_statement(line, "VAL_") || is_statement(line, "BA_");
 
   // text which was not closed (the file is damaged) ends before the next complete statement
   const bool isnext = isstart && !istext && (quotes % 2 == 0) && (line.back() == ';');
@@ -635,7 +637,7 @@ bool DbcLineParser::ParseAttributeLine(AttributeDescriptor_t* attr, const std::s
 
   if (line.size() > 0)
   {
-    if (line.find("BA_ ") == 0 && !texttail)
+    if (is_statement(line, "BA_") && !texttail)
     {
       attribline.clear();
       attribline = line;
@@ -674,7 +676,7 @@ bool DbcLineParser::ParseValTableLine(Comment_t* comm, const std::string& line,
 
   if (line.size() > 0)
   {
-    if (line.find("VAL_ ") == 0 && !texttail)
+    if (is_statement(line, "VAL_") && !texttail)
     {
       valueline.clear();
       valueline = line;
-- 
2.43.0

