From a2b2132520ab2eb43dc9bc838922e3bf1e109c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:33 +0000
Subject: [PATCH 01/42] fix: widen unpack chunks whose top bit lies above bit
 31

A chunk shifted by less than 32 but reaching past bit 31 lost its upper bits
(e.g. a 36 bit Intel signal starting at bit 4).
---
 src/codegen/c-sigprinter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index 3ea51cd..6546a61 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -232,7 +232,7 @@ std::string CSigPrinter::PrintSignalExpr(const SignalDescriptor_t* sig, std::vec
     std::string t64 = "";
     slen -= bbc;
 
-    if (slen > 31)
+    if (slen + bbc > 32)
     {
       t64 = "(uint64_t)";
     }
@@ -273,7 +273,7 @@ std::string CSigPrinter::PrintSignalExpr(const SignalDescriptor_t* sig, std::vec
       }
       else
       {
-        if (slen > 31)
+        if (slen + 8 > 32)
         {
           t64 = "(uint64_t)";
         }
-- 
2.43.0


From 1df220abd7e1f09e4033a1f32caaf01f492b6f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:33 +0000
Subject: [PATCH 02/42] fix: refuse every signal that leaves the frame payload

The byte bound test was off by one and missing for the last partial byte
(write past the end of the byte expressions), and positions above the
limit were clamped into the last byte.
---
 src/codegen/c-sigprinter.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index 6546a61..87e0c76 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -191,11 +191,6 @@ std::string CSigPrinter::PrintSignalExpr(const SignalDescriptor_t* sig, std::vec
   uint16_t startb = (uint16_t)((sig->Order == BitLayout::kIntel) ?
     (sig->StartBit + (sig->LengthBit - 1)) : (sig->StartBit));
 
-  if (startb > CONF_LIMIT_HIGHEST_BIT_POSITION)
-  {
-    startb = CONF_LIMIT_HIGHEST_BIT_POSITION;
-  }
-
   uint32_t bn = (startb / 8);
 
   if (to_bytes.size() <= bn)
@@ -251,7 +246,7 @@ std::string CSigPrinter::PrintSignalExpr(const SignalDescriptor_t* sig, std::vec
 
       bn = ShiftByte(sig, bn);
 
-      if (to_bytes.size() < bn)
+      if (to_bytes.size() <= bn)
       {
         // DLC from message doesn't fit to signal layout
         // make code uncomplilable
@@ -290,6 +285,14 @@ std::string CSigPrinter::PrintSignalExpr(const SignalDescriptor_t* sig, std::vec
     {
       bn = ShiftByte(sig, bn);
 
+      if (to_bytes.size() <= bn)
+      {
+        // DLC from message doesn't fit to signal layout
+        // make code uncomplilable
+        to_bytes[0] = "Error in DBC file !!!! Dlc of this message must be greater.";
+        return to_bytes[0];
+      }
+
       snprintf(workbuff, WBUFF_LEN, " | ((_d[%d] >> %dU) & (%s))", bn, 8 - slen, msk[slen].c_str());
       tosigexpr += workbuff;
 
-- 
2.43.0


From ba67739467e04fcee411793341c719ace1ddbe09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:33 +0000
Subject: [PATCH 03/42] fix: do not attach annotations of unknown messages to
 the last message

---
 src/parser/dbcscanner.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 2757b35..ac5f1df 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -19,11 +19,10 @@ MessageDescriptor_t* find_message(vector<MessageDescriptor_t*> msgs, uint32_t ID
 
   for (size_t i = 0; i < msgs.size(); i++)
   {
-    ret = msgs[i];
-
-    if (ret->MsgID == ID)
+    if (msgs[i]->MsgID == ID)
     {
       // Frame found
+      ret = msgs[i];
       break;
     }
   }
-- 
2.43.0


From 30640e2d553868359eef85320eb4b2a1246d1dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:33 +0000
Subject: [PATCH 04/42] fix: attach value tables to scaled signals too

Scaled signals carry the _ro suffix, comments already took that into account.
---
 src/parser/dbcscanner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index ac5f1df..0e96b69 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -253,7 +253,7 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
         {
           for (size_t i = 0; i < msg->Signals.size(); i++)
           {
-            if (cmmnt.SigName == msg->Signals[i].Name)
+            if ((cmmnt.SigName == msg->Signals[i].Name) || ((cmmnt.SigName + "_ro") == msg->Signals[i].Name))
             {
               // signal has been found, update commnet text
               msg->Signals[i].ValueText = cmmnt.Text;
-- 
2.43.0


From e49f72b8ad5e137af3691827bf7fc4018eb3e5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:33 +0000
Subject: [PATCH 05/42] fix: check message id and length before narrowing them

A length of 264 was accepted as 8.
---
 src/parser/dbclineparser.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index d676f16..17131a5 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -133,11 +133,19 @@ bool DbcLineParser::ParseMessageLine(MessageDescriptor_t* msg, const std::string
 
   msg->Name = items[2];
 
-  msg->MsgID = static_cast<uint32_t>(atoll(items[1].c_str()));
+  const long long msgid = atoll(items[1].c_str());
+  const long long dlc = atoll(items[4].c_str());
 
-  msg->DLC = atoi(items[4].c_str());
+  if (msgid < 0 || msgid > UINT_MAX || dlc <= 0 || dlc > CONF_LIMIT_MAX_DLC)
+  {
+    return false;
+  }
+
+  msg->MsgID = static_cast<uint32_t>(msgid);
+
+  msg->DLC = static_cast<uint8_t>(dlc);
 
-  if ((msg->MsgID & 0x60000000) != 0 || msg->DLC == 0 || msg->DLC > CONF_LIMIT_MAX_DLC)
+  if ((msg->MsgID & 0x60000000) != 0)
   {
     return false;
   }
-- 
2.43.0


From c26fcf5310ba38fe3072051d4c6c28af0588a15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:33 +0000
Subject: [PATCH 06/42] fix: drop signals whose start bit or length is out of
 range

The length was truncated to 8 bits (300 became 44) and a length of 0 or
more than 64 led to broken expressions.
---
 src/parser/dbclineparser.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 17131a5..623a653 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -235,8 +235,16 @@ bool DbcLineParser::ParseSignalLine(SignalDescriptor_t* sig, const std::string&
   }
   else
   {
-    sig->StartBit = atoi(valpart[0].c_str());
-    sig->LengthBit = atoi(valpart[1].c_str());
+    const long long startbit = atoll(valpart[0].c_str());
+    const long long lengthbit = atoll(valpart[1].c_str());
+
+    if (startbit < 0 || startbit > CONF_LIMIT_HIGHEST_BIT_POSITION || lengthbit < 1 || lengthbit > 64)
+    {
+      return false;
+    }
+
+    sig->StartBit = static_cast<uint32_t>(startbit);
+    sig->LengthBit = static_cast<uint8_t>(lengthbit);
 
     // get info about factor or offset double nature
     sig->IsDoubleSig = false;
-- 
2.43.0


From e8e285dd74f1a00b2eea34d067855779ea7348a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:33 +0000
Subject: [PATCH 07/42] fix: treat factors and offsets beyond int range as real
 numbers

They were converted to int with undefined behaviour.
---
 src/parser/dbclineparser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 623a653..f0e0144 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -284,6 +284,12 @@ bool DbcLineParser::ParseSignalLine(SignalDescriptor_t* sig, const std::string&
       sig->IsDoubleSig = false;
     }
 
+    if (!(std::fabs(sig->Factor) <= INT_MAX) || !(std::fabs(sig->Offset) <= INT_MAX))
+    {
+      // the value can't be printed as integer
+      sig->IsDoubleSig = true;
+    }
+
     sig->RawOffset = sig->Offset / sig->Factor;
 
     sig->MinValue = atof(valpart[5].c_str());
-- 
2.43.0


From 6d0808d6ebceb28597c6a6101076b8b04291b9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:13 +0000
Subject: [PATCH 08/42] fix: take only the text inside <> as checksum marker

The length was wrong as soon as text stood before the marker.
---
 src/parser/dbcscanner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 0e96b69..154a624 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -209,7 +209,7 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
 
                 if ((closepos != std::string::npos) && (closepos > (openpos + 1)))
                 {
-                  auto substr = cmmnt.Text.substr(openpos + 1, closepos - 1);
+                  auto substr = cmmnt.Text.substr(openpos + 1, closepos - openpos - 1);
 
                   auto meta = resplit(substr, "(\\:)", -1);
 
-- 
2.43.0


From 72ea5e898c4da74dd1e7be158eb7623acb36af61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:13 +0000
Subject: [PATCH 09/42] fix: do not pad struct fields by a negative amount

The expected rolling counter field has a longer name than the signal, its
padding could wrap around and abort the generator.
---
 src/codegen/c-main-generator.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index dc9c5ae..5a937a5 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -589,7 +589,12 @@ void CiMainGenerator::WriteSigStructField(const SignalDescriptor_t& sig, bool bi
 
   std::string pad = " ";
 
-  dtype += pad.insert(0, padwidth + 16 - dtype.size(), ' ');
+  if (dtype.size() < padwidth + 16)
+  {
+    pad.insert(0, padwidth + 16 - dtype.size(), ' ');
+  }
+
+  dtype += pad;
 
   fwriter.AppendText(dtype);
 
-- 
2.43.0


From 7d303e6f52cb385b7d023c6ae0b55c1912105a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:13 +0000
Subject: [PATCH 10/42] fix: take the last message into account for the maximum
 DLC

---
 src/parser/dbcscanner.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 154a624..becb61b 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -79,12 +79,6 @@ void DbcScanner::ParseMessageInfo(istream& readstrm)
     // New message line has been found
     if (lparser.IsMessageLine(sline))
     {
-      // if actual message, check DLC value for being max
-      if ((pMsg != nullptr) && (pMsg->DLC > dblist.maxDlcValue))
-      {
-        dblist.maxDlcValue = pMsg->DLC;
-      }
-
       // the message will be added only if pMsg is not nullptr
       AddMessage(pMsg);
 
@@ -310,6 +304,12 @@ void DbcScanner::AddMessage(MessageDescriptor_t* message)
       }
     }
 
+    // check DLC value for being max
+    if (message->DLC > dblist.maxDlcValue)
+    {
+      dblist.maxDlcValue = message->DLC;
+    }
+
     // save pointer on message
     dblist.msgs.push_back(message);
   }
-- 
2.43.0


From 1b1d69d639d82e7d00c9177b441f915af7cb4d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:13 +0000
Subject: [PATCH 11/42] fix: start every output file empty and report failed
 writes

Text of a file that could not be opened was written into the next file.
---
 src/codegen/filewriter.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/codegen/filewriter.cpp b/src/codegen/filewriter.cpp
index ba27e10..0b1635e 100644
--- a/src/codegen/filewriter.cpp
+++ b/src/codegen/filewriter.cpp
@@ -23,6 +23,8 @@ std::string __print_loc__(const char* format, va_list args)
 
 void FileWriter::Flush()
 {
+  // drop the content, not only the state flags
+  strm.str(std::string());
   strm.clear();
 }
 
@@ -32,6 +34,12 @@ void FileWriter::Flush(const std::string& fpath)
   wfile.open(fpath, std::ios::out);
   wfile << strm.rdbuf();
   wfile.close();
+
+  if (!wfile)
+  {
+    std::cerr << "Unable to write file " << fpath << std::endl;
+  }
+
   Flush();
 }
 
-- 
2.43.0


From dc4b7c7aa04b788d42d5d950b553d963b5aa8883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:13 +0000
Subject: [PATCH 12/42] fix: do not cut generated lines at 10000 characters

Frames with many multiplexed signals in one byte exceed that length.
---
 src/codegen/filewriter.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/codegen/filewriter.cpp b/src/codegen/filewriter.cpp
index 0b1635e..e194263 100644
--- a/src/codegen/filewriter.cpp
+++ b/src/codegen/filewriter.cpp
@@ -5,20 +5,24 @@
 #include <assert.h>
 #include "filewriter.h"
 
-template<size_t N = 10000>
 std::string __print_loc__(const char* format, va_list args)
 {
-  char work_buff[N] = {0};
-  auto ret = vsnprintf(work_buff, N, format, args);
+  va_list measure;
+  va_copy(measure, args);
+  auto len = vsnprintf(nullptr, 0, format, measure);
+  va_end(measure);
 
-  if (ret >= N)
+  if (len <= 0)
   {
-    std::cout << "Attention (!) the line has been shortened : " << std::endl;
-    std::cout << work_buff << std::endl;
+    return "";
   }
 
-  // make string from local array
-  return work_buff;
+  // one more byte for terminating zero
+  std::string line(len + 1u, 0);
+  vsnprintf(&line[0], line.size(), format, args);
+  line.resize(len);
+
+  return line;
 }
 
 void FileWriter::Flush()
-- 
2.43.0


From d676a2f49042b52393ac9843afdae7726cfecf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:13 +0000
Subject: [PATCH 13/42] fix: ignore version numbers that do not fit instead of
 aborting

---
 src/parser/dbcscanner.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index becb61b..e02862f 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -353,6 +353,12 @@ static bool ParseVersionLine(const std::string& line, std::string& str, uint32_t
   {
     if (matches.size() == 4)
     {
+      // longer numbers do not fit the version values
+      if (matches[2].length() > 9 || matches[3].length() > 9)
+      {
+        return false;
+      }
+
       // 1 for the whole match and 3 for the capture groups
       str = matches[1].str();
       num1 = std::stoul(matches[2].str());
-- 
2.43.0


From 4b309f8b60866a450b33250338f841de16c57766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:13 +0000
Subject: [PATCH 14/42] fix: support checksum signals above byte 7 of long
 frames

---
 src/codegen/c-sigprinter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index 87e0c76..9bc1f73 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -159,11 +159,11 @@ int32_t CSigPrinter::BuildCConvertExprs(CiExpr_t* msgprinter)
 
   if (msgprinter->msg.CsmSig != nullptr)
   {
-    std::vector<std::string> v(8);
+    std::vector<std::string> v(msgprinter->msg.DLC);
 
     PrintSignalExpr(msgprinter->msg.CsmSig, v);
 
-    for (uint8_t i = 0; i < v.size() && i < 8; i++)
+    for (uint8_t i = 0; i < v.size(); i++)
     {
       if (v[i].size() > 0)
       {
-- 
2.43.0


From ea193f64742feab1782df0a48a66129a33f3f12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:13 +0000
Subject: [PATCH 15/42] fix: build the sign bit in ubitext_t

Shifting 1u by more than 31 is undefined even if ubitext_t has 64 bits.
---
 src/codegen/c-main-generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index 5a937a5..a181f12 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -27,7 +27,7 @@ const char* extend_func_body =
   "// Defined these typedefs in @dbccodeconf.h or locally in 'dbcdrvname'-config.h\n"
   "static bitext_t %s(ubitext_t val, uint8_t bits)\n"
   "{\n"
-  "  ubitext_t const m = (ubitext_t) (1u << (bits - 1u));\n"
+  "  ubitext_t const m = (((ubitext_t) 1u) << (bits - 1u));\n"
   "  return ((val ^ m) - m);\n"
   "}\n\n";
 
-- 
2.43.0


From beb43eb69a87e9bef534f338645b0a9b9d361012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:13 +0000
Subject: [PATCH 16/42] fix: drop backslashes at the line ends of comments

A line comment ending with a backslash swallowed the next generated line.
---
 src/parser/dbclineparser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index f0e0144..aede6bc 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -505,7 +505,9 @@ bool DbcLineParser::ParseCommentLine(Comment_t* cm, const std::string& line)
           }
 
           // copy comment text
-          cm->Text = items[1];
+          // without backslashes at line ends: these would join the next generated
+          // line to the comment
+          cm->Text = std::regex_replace(items[1], std::regex("\\\\+(\n|$)"), "$1");
         }
 
         if (cm->Text.size() > 0 && cm->Text.back() == '\n')
-- 
2.43.0


From 3ad1a52126b1967a5f0a084acb4dbcb443d43522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:13 +0000
Subject: [PATCH 17/42] fix: do not accept -dbc and -out without a value

An empty output directory let the generator write to the file system root.
---
 src/options-parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/options-parser.cpp b/src/options-parser.cpp
index ee77391..873e0c8 100644
--- a/src/options-parser.cpp
+++ b/src/options-parser.cpp
@@ -37,12 +37,12 @@ OptionsParser::GenOptions OptionsParser::GetOptions(int argc, char** argv)
     if (temppairs[i].first.compare("-dbc") == 0)
     {
       retpairs.dbc.first = temppairs[i].second;
-      retpairs.dbc.second = true;
+      retpairs.dbc.second = !retpairs.dbc.first.empty();
     }
     else if (temppairs[i].first.compare("-out") == 0)
     {
       retpairs.outdir.first = temppairs[i].second;
-      retpairs.outdir.second = true;
+      retpairs.outdir.second = !retpairs.outdir.first.empty();
     }
     else if (temppairs[i].first.compare("-drvname") == 0)
     {
-- 
2.43.0


From 84af80cd829a2c811aff04d4949bcb6cbafd8d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:44 +0000
Subject: [PATCH 18/42] fix: report output directories that can not be created

The throwing overloads aborted the program, e.g. for a missing parent
directory.
---
 src/codegen/fs-creator.cpp | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/codegen/fs-creator.cpp b/src/codegen/fs-creator.cpp
index 944bce9..5efc13b 100644
--- a/src/codegen/fs-creator.cpp
+++ b/src/codegen/fs-creator.cpp
@@ -99,6 +99,7 @@ bool FsCreator::PrepareDirectory(bool rw)
 
   // find free directory
   struct stat info;
+  std::error_code ec;
 
   std::string work_dir_path;
   const auto& basepath = FS.file.core_h.dir;
@@ -111,7 +112,7 @@ bool FsCreator::PrepareDirectory(bool rw)
     // for this case check only if directory exists
     if (stat(work_dir_path.c_str(), &info) != 0)
     {
-      if (!std::filesystem::create_directory(work_dir_path))
+      if (!std::filesystem::create_directory(work_dir_path, ec))
       {
         ret = false;
       }
@@ -128,7 +129,7 @@ bool FsCreator::PrepareDirectory(bool rw)
 
       if (stat(work_dir_path.c_str(), &info) != 0)
       {
-        if (std::filesystem::create_directory(work_dir_path))
+        if (std::filesystem::create_directory(work_dir_path, ec))
         {
           ret = true;
           break;
@@ -141,20 +142,26 @@ bool FsCreator::PrepareDirectory(bool rw)
       }
       else
       {
-        if (std::filesystem::create_directory(work_dir_path) != 0)
-        {
-          ret = false;
-          break;
-        }
+        // not a directory, try next num
+        continue;
       }
     }
   }
 
-  std::filesystem::create_directory(FS.file.libdir);
-  std::filesystem::create_directory(FS.file.usrdir);
-  std::filesystem::create_directory(FS.file.incdir);
-  std::filesystem::create_directory(FS.file.confdir);
-  std::filesystem::create_directory(FS.file.utildir);
+  if (!ret)
+  {
+    return false;
+  }
+
+  for (const auto& dir : { FS.file.libdir, FS.file.usrdir, FS.file.incdir, FS.file.confdir, FS.file.utildir })
+  {
+    std::filesystem::create_directory(dir, ec);
+
+    if (ec)
+    {
+      ret = false;
+    }
+  }
 
   return ret;
 }
-- 
2.43.0


From db9c403336742b7475c88c477d0d57d1199f7032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:44 +0000
Subject: [PATCH 19/42] fix: write into the numbered sub-directory unless -rw
 is given

The sub-directory was created but all the files were placed (and
overwritten) in the output directory itself.
---
 src/codegen/fs-creator.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/codegen/fs-creator.cpp b/src/codegen/fs-creator.cpp
index 5efc13b..25871b2 100644
--- a/src/codegen/fs-creator.cpp
+++ b/src/codegen/fs-creator.cpp
@@ -153,6 +153,13 @@ bool FsCreator::PrepareDirectory(bool rw)
     return false;
   }
 
+  if (!rw)
+  {
+    // all the files must be placed in the just created directory
+    const auto gen = FS.gen;
+    Configure(gen.DrvName_orig, work_dir_path, gen.start_common_info, gen.start_driver_info, gen.hiver, gen.lowver);
+  }
+
   for (const auto& dir : { FS.file.libdir, FS.file.usrdir, FS.file.incdir, FS.file.confdir, FS.file.utildir })
   {
     std::filesystem::create_directory(dir, ec);
-- 
2.43.0


From 7160d2694caa42291d1cb391e8724b96872f2cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:44 +0000
Subject: [PATCH 20/42] fix: avoid shift overflow for wide rolling counters

---
 src/codegen/c-main-generator.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index a181f12..34724be 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -16,6 +16,12 @@
 
 const char* ext_sig_func_name = "__ext_sig__";
 
+// Highest value of the signal with the given width
+static unsigned long long max_raw_value(uint8_t bits)
+{
+  return (bits >= 64u) ? ~0ULL : ((1ULL << bits) - 1u);
+}
+
 const char* extend_func_body =
   "// This function performs extension of sign for the signals\n"
   "// whose bit width value is not aligned to one of power of 2 or less than 8.\n"
@@ -744,8 +750,8 @@ void CiMainGenerator::WriteUnpackBody(const CiExpr_t* sgs)
     fwriter.Append("#ifdef %s", fdesc->gen.useroll_def.c_str());
     fwriter.Append("  _m->mon1.roll_error = (_m->%s != _m->%s_expt);",
       sgs->msg.RollSig->Name.c_str(), sgs->msg.RollSig->Name.c_str());
-    fwriter.Append("  _m->%s_expt = (_m->%s + 1) & (0x%02XU);", sgs->msg.RollSig->Name.c_str(),
-      sgs->msg.RollSig->Name.c_str(), (1 << sgs->msg.RollSig->LengthBit) - 1);
+    fwriter.Append("  _m->%s_expt = (_m->%s + 1) & (0x%02llXU);", sgs->msg.RollSig->Name.c_str(),
+      sgs->msg.RollSig->Name.c_str(), max_raw_value(sgs->msg.RollSig->LengthBit));
     // Put rolling monitor here
     fwriter.Append("#endif // %s", fdesc->gen.useroll_def.c_str());
     fwriter.Append();
@@ -809,8 +815,8 @@ void CiMainGenerator::PrintPackCommonText(const std::string& arrtxt, const CiExp
   if (sgs->msg.RollSig != nullptr)
   {
     fwriter.Append("#ifdef %s", fdesc->gen.useroll_def.c_str());
-    fwriter.Append("  _m->%s = (_m->%s + 1) & (0x%02XU);", sgs->msg.RollSig->Name.c_str(),
-      sgs->msg.RollSig->Name.c_str(), (1 << sgs->msg.RollSig->LengthBit) - 1);
+    fwriter.Append("  _m->%s = (_m->%s + 1) & (0x%02llXU);", sgs->msg.RollSig->Name.c_str(),
+      sgs->msg.RollSig->Name.c_str(), max_raw_value(sgs->msg.RollSig->LengthBit));
     fwriter.Append("#endif // %s", fdesc->gen.useroll_def.c_str());
     fwriter.Append();
   }
-- 
2.43.0


From b577ed7cbe01274373f535fa02aeed577899e7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:44 +0000
Subject: [PATCH 21/42] fix: compute the raw value range without float to
 integer overflow

---
 src/parser/dbclineparser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index aede6bc..f0a0616 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -362,8 +362,8 @@ SigType DbcLineParser::GetSigType(SignalDescriptor_t* sig)
   if (sig->Signed)
   {
     addon = 1;
-    max_abs = static_cast<int64_t>((std::pow(2, sig->LengthBit - 1) - 1));
-    min_abs = (max_abs + 1) * -1;
+    max_abs = (sig->LengthBit > 63) ? LLONG_MAX : ((1LL << (sig->LengthBit - 1)) - 1);
+    min_abs = -max_abs - 1;
 
     for (size_t i = 0; i < 4; i++)
     {
@@ -377,7 +377,7 @@ SigType DbcLineParser::GetSigType(SignalDescriptor_t* sig)
   }
   else
   {
-    max_abs = static_cast<int64_t>((std::pow(2, sig->LengthBit) - 1));
+    max_abs = (sig->LengthBit > 62) ? LLONG_MAX : ((1LL << sig->LengthBit) - 1);
     min_abs = 0;
 
     for (size_t i = 0; i < 4; i++)
-- 
2.43.0


From 222dc5e185b6e1431b19b1852de4b3deb88dc652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:58 +0000
Subject: [PATCH 22/42] fix: no cycle macro for a negative cycle time

---
 src/parser/dbcscanner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index e02862f..97f3462 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -268,7 +268,7 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
         // message was found, set attribute value
         if (attr.Type == AttributeType::CycleTime)
         {
-          msg->Cycle = attr.Value;
+          msg->Cycle = (attr.Value > 0) ? attr.Value : 0;
         }
       }
     }
-- 
2.43.0


From 37228bb371d9fd2cf1776b213e867d7611d627b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:33 +0000
Subject: [PATCH 23/42] fix: match annotations by the identifier they really
 name (no truncation, message 0)

---
 src/parser/dbclineparser.cpp | 34 ++++++++++++++++++++++------------
 src/parser/dbcscanner.cpp    |  2 +-
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index f0a0616..8045954 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -100,6 +100,22 @@ static uint32_t clear_msgid(uint32_t messageid)
   return messageid & 0x1FFFFFFFU;
 }
 
+// identifier that no message can have
+static const uint32_t kNoMessageId = 0xFFFFFFFFU;
+
+// message identifier which an annotation refers to
+static uint32_t annotated_msgid(const std::string& text)
+{
+  const long long id = atoll(text.c_str());
+
+  if (id < 0 || id > UINT_MAX || (id & 0x60000000) != 0)
+  {
+    return kNoMessageId;
+  }
+
+  return clear_msgid(static_cast<uint32_t>(id));
+}
+
 DbcLineParser::DbcLineParser()
 {
 }
@@ -165,14 +181,11 @@ uint32_t DbcLineParser::ParseMultiTrans(std::vector<std::string>& outnodes, std:
 
   if (chunks.size() >= 3 && chunks[0] == "BO_TX_BU_")
   {
-    ret = clear_msgid(static_cast<uint32_t>(atoll(chunks[1].c_str())));
+    ret = annotated_msgid(chunks[1]);
 
-    if (ret != 0)
+    for (size_t i = 2; i < chunks.size(); i++)
     {
-      for (size_t i = 2; i < chunks.size(); i++)
-      {
-        outnodes.push_back(chunks[i]);
-      }
+      outnodes.push_back(chunks[i]);
     }
   }
 
@@ -487,10 +500,7 @@ bool DbcLineParser::ParseCommentLine(Comment_t* cm, const std::string& line)
           // 1 CM_ marker
           // 2 target (message or signal)
           // 3 msg id
-          uint32_t id = static_cast<uint32_t>(atoll(meta[2].c_str()));
-
-          // clear message id from high 3 bits
-          cm->MsgId = clear_msgid(id);
+          cm->MsgId = annotated_msgid(meta[2]);
 
           if (meta[1] == "SG_" && meta.size() == 4)
           {
@@ -552,7 +562,7 @@ bool DbcLineParser::ParseAttributeLine(AttributeDescriptor_t* attr, const std::s
       if (items.size() > 4 && items[1] == "GenMsgCycleTime" && items[2] == "BO_")
       {
         attr->Type = AttributeType::CycleTime;
-        attr->MsgId = clear_msgid(static_cast<uint32_t>(atoll(items[3].c_str())));
+        attr->MsgId = annotated_msgid(items[3]);
         // read value of ms of cycle time for the current message
         attr->Value = atoi(items[4].c_str());
         ret = true;
@@ -591,7 +601,7 @@ bool DbcLineParser::ParseValTableLine(Comment_t* comm, const std::string& line,
 
       if ((items.size() >= 3) && (items.back() == ";") && (items.size() % 2 == 0))
       {
-        comm->MsgId = (clear_msgid(static_cast<uint32_t>(atoll(items[1].c_str()))));
+        comm->MsgId = annotated_msgid(items[1]);
         comm->SigName = items[2];
         comm->Text = "";
         comm->ca_target = CommentTarget::Signal;
diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 97f3462..b2cd884 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -120,7 +120,7 @@ void DbcScanner::ParseMessageInfo(istream& readstrm)
 
     uint32_t msgid = lparser.ParseMultiTrans(tx_nodes, sline);
 
-    if (msgid != 0)
+    if (tx_nodes.size() > 0)
     {
       // In this place no messages will captured after,
       // so put temp pMsg as last message and null it
-- 
2.43.0


From c3458403fe11f4f946819c02074034b801edebfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:04 +0000
Subject: [PATCH 24/42] fix: checksum method of a comment marker is printed as
 a C name

---
 src/parser/dbcscanner.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index b2cd884..23a8217 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -215,10 +215,13 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
                       ((sig.StartBit / 8) == ((sig.StartBit + sig.LengthBit - 1) / 8)) :
                       ((sig.StartBit / 8) == ((sig.StartBit - sig.LengthBit + 1) / 8));
 
-                    if (sig.IsSimpleSig && boundary_ok && sig.Signed == false)
+                    // the method is printed to code so it must be a C name
+                    auto method = make_c_name(meta[1]);
+
+                    if (sig.IsSimpleSig && boundary_ok && sig.Signed == false && method.size() > 0)
                     {
                       msg->CsmSig = &sig;
-                      msg->CsmMethod = meta[1];
+                      msg->CsmMethod = method;
                       msg->CsmOp = atoi(meta[2].c_str());
                     }
                   }
-- 
2.43.0


From ac2cc8773cbe48543029fabe9417534115a69a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 25/42] fix: declare the physical field of a scaled rolling
 counter once

---
 src/codegen/c-main-generator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index 34724be..ac5c536 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -245,6 +245,8 @@ void CiMainGenerator::Gen_MainHeader()
       rollsig = (*m.RollSig);
       rollsig.CommentText = "";
       rollsig.Name += "_expt";
+      // the physical field is declared once by the signal itself
+      rollsig.IsSimpleSig = true;
     }
 
     for (size_t signum = 0; signum < m.Signals.size(); signum++)
-- 
2.43.0


From 0bf16862914fa16a316bdc01120ecea4949b2950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 26/42] fix: do not overwrite the automatic rolling counter by
 its physical field

---
 src/codegen/c-main-generator.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index ac5c536..97f9821 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -842,12 +842,25 @@ void CiMainGenerator::PrintPackCommonText(const std::string& arrtxt, const CiExp
     {
       if (sgs->msg.Signals[n].IsSimpleSig == false)
       {
+        // the automatically advanced counter must not be overwritten
+        bool isroll = sgs->msg.RollSig != nullptr && sgs->msg.RollSig->Name == sgs->msg.Signals[n].Name;
+
+        if (isroll)
+        {
+          fwriter.Append("#ifndef %s", fdesc->gen.useroll_def.c_str());
+        }
+
         // print toS from *_phys to original named sigint (integer duplicate of signal)
         fwriter.Append("  _m->%s = (%s) %s_%s_toS(_m->%s);",
           sgs->msg.Signals[n].Name.c_str(),
           PrintType((int) sgs->msg.Signals[n].TypeRo).c_str(),
           fdesc->gen.DRVNAME.c_str(),
           sgs->msg.Signals[n].Name.c_str(), sgs->msg.Signals[n].NameFloat.c_str());
+
+        if (isroll)
+        {
+          fwriter.Append("#endif // %s", fdesc->gen.useroll_def.c_str());
+        }
       }
     }
 
-- 
2.43.0


From 4cb2495438a087add82855a9ad8fe3906ede9316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 27/42] fix: keep a message transmitter whose name is a single
 character

---
 src/parser/dbclineparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 8045954..5f67c5f 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -142,7 +142,7 @@ bool DbcLineParser::ParseMessageLine(MessageDescriptor_t* msg, const std::string
 
   std::string txname = (items.size() >= 6) ? (items[5]) : ("");
 
-  if (txname.size() > 1)
+  if (txname.size() > 0)
   {
     msg->TranS.push_back(txname);
   }
-- 
2.43.0


From d3258cabe1d58a5685bef4a3e06f6023fc3998a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:29 +0000
Subject: [PATCH 28/42] fix: treat a backslash as a separator only where it is
 one when the driver directory is appended

---
 src/app.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/app.cpp b/src/app.cpp
index 4810d9b..2bb4db6 100644
--- a/src/app.cpp
+++ b/src/app.cpp
@@ -34,11 +34,12 @@ std::string ExtractFileName(const std::string& fullfilepath)
 /// @return The combined path as a string
 std::string CombinePath(const std::string& path, const std::string& folderName)
 {
-  // check if path ends with '/' or '\\'
-  bool pathEndsWithSeparator = !path.empty() && (path.back() == '/' || path.back() == '\\');
+  // check if path ends with '/' or with the separator of the platform
+  bool pathEndsWithSeparator = !path.empty() && (path.back() == '/' || path.back() == std::filesystem::path::preferred_separator);
 
-  // check if folderName starts with '/' or '\\'
-  bool folderStartsWithSeparator = !folderName.empty() && (folderName.front() == '/' || folderName.front() == '\\');
+  // check if folderName starts with '/' or with the separator of the platform
+  bool folderStartsWithSeparator = !folderName.empty() && (folderName.front() == '/' ||
+      folderName.front() == std::filesystem::path::preferred_separator);
 
   // combine path and folderName based on separators
   if (pathEndsWithSeparator && folderStartsWithSeparator)
-- 
2.43.0


From 91c28b56f45515602b72150e1fb05f845c45844b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:54 +0000
Subject: [PATCH 29/42] fix: do not cut off generated text longer than 4095
 characters

---
 src/helpers/formatter.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/helpers/formatter.cpp b/src/helpers/formatter.cpp
index fd45a22..5f3092d 100644
--- a/src/helpers/formatter.cpp
+++ b/src/helpers/formatter.cpp
@@ -4,9 +4,7 @@
 #include <sstream>
 #include "formatter.h"
 
-static const size_t kMaxWorkArrLength = 4096;
-
-static char work_buff[kMaxWorkArrLength] = { 0 };
+static std::string work_buff;
 
 static const std::string __typeprint[8] =
 {
@@ -38,10 +36,20 @@ const char* StrPrint(const char* format, ...)
   va_list args;
   va_start(args, format);
 
-  vsnprintf(work_buff, kMaxWorkArrLength, format, args);
+  va_list measure;
+  va_copy(measure, args);
+  auto len = vsnprintf(nullptr, 0, format, measure);
+  va_end(measure);
+
+  // one more byte for terminating zero
+  std::string text(len > 0 ? len + 1u : 1u, 0);
+  vsnprintf(&text[0], text.size(), format, args);
 
   va_end(args);
-  return work_buff;
+
+  text.resize(text.size() - 1u);
+  work_buff = text;
+  return work_buff.c_str();
 }
 
 std::string PrintType(uint8_t id)
-- 
2.43.0


From b91489fe5fe962c57af23b08039217575f293f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:16 +0000
Subject: [PATCH 30/42] fix: keep non-ASCII characters at the end of a line

---
 src/helpers/formatter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/helpers/formatter.cpp b/src/helpers/formatter.cpp
index 5f3092d..7dd4c37 100644
--- a/src/helpers/formatter.cpp
+++ b/src/helpers/formatter.cpp
@@ -95,7 +95,8 @@ std::string str_trim(std::string s)
 
   while (passed < s.size())
   {
-    if (s[s.size() - passed - 1] > ' ')
+    // bytes of non-ASCII characters are negative when char is signed
+    if (static_cast<unsigned char>(s[s.size() - passed - 1]) > ' ')
     {
       break;
     }
-- 
2.43.0


From 08c769c89ef0836eb02e0f6a7983e4b982689c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:01 +0000
Subject: [PATCH 31/42] fix: keep every line break of a comment exactly once

---
 src/helpers/formatter.cpp    | 7 -------
 src/parser/dbclineparser.cpp | 5 +++--
 2 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/helpers/formatter.cpp b/src/helpers/formatter.cpp
index 7dd4c37..14df714 100644
--- a/src/helpers/formatter.cpp
+++ b/src/helpers/formatter.cpp
@@ -86,13 +86,6 @@ std::string str_trim(std::string s)
 {
   size_t passed = 0;
 
-  if (s.empty())
-  {
-    return s + '\n';
-  }
-
-  passed = 0;
-
   while (passed < s.size())
   {
     // bytes of non-ASCII characters are negative when char is signed
diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 5f67c5f..3ed83f6 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -468,7 +468,8 @@ bool DbcLineParser::ParseCommentLine(Comment_t* cm, const std::string& line)
 {
   bool ret = false;
 
-  if (line.size() > 0)
+  // empty lines inside of a comment belong to it
+  if (line.size() > 0 || commentline.size() > 0)
   {
     if (line.find("CM_") == 0)
     {
@@ -482,7 +483,7 @@ bool DbcLineParser::ParseCommentLine(Comment_t* cm, const std::string& line)
     }
 
     // check if the current line last
-    if (commentline.size() > 0 && line.back() == ';')
+    if (commentline.size() > 0 && line.size() > 0 && line.back() == ';')
     {
       // set invalid target type as default return value
       cm->ca_target = CommentTarget::Undefined;
-- 
2.43.0


From 44e199db16afcd3a169c1e805bf85e66839af136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:26 +0000
Subject: [PATCH 32/42] fix: do not take lines of a comment for messages,
 signals or the version

---
 src/parser/dbcscanner.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 23a8217..26652e0 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -70,10 +70,19 @@ void DbcScanner::ParseMessageInfo(istream& readstrm)
 
   MessageDescriptor_t* pMsg = nullptr;
 
+  bool in_comment = false;
+
   while (std::getline(readstrm, sline))
   {
     sline = str_trim(sline);
 
+    if (in_comment || sline.find("CM_") == 0)
+    {
+      // the text of a comment is not a definition
+      in_comment = sline.empty() || sline.back() != ';';
+      continue;
+    }
+
     FindVersion(sline);
 
     // New message line has been found
-- 
2.43.0


From c54700b5873f91c9237a4a9d39bda120b0f8dfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:36 +0000
Subject: [PATCH 33/42] fix: an annotation that names a signal's generated
 field does not reach the signal

---
 src/parser/dbcscanner.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 26652e0..492e907 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -30,6 +30,12 @@ MessageDescriptor_t* find_message(vector<MessageDescriptor_t*> msgs, uint32_t ID
   return ret;
 }
 
+// tests the name which a signal has in the DBC file
+static bool is_named(const SignalDescriptor_t& sig, const std::string& name)
+{
+  return sig.Name == (sig.IsSimpleSig ? name : name + "_ro");
+}
+
 DbcScanner::DbcScanner()
 {
   dblist.maxDlcValue = 0u;
@@ -189,7 +195,7 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
         {
           for (size_t i = 0; i < msg->Signals.size(); i++)
           {
-            if ((cmmnt.SigName == msg->Signals[i].Name) || ((cmmnt.SigName + "_ro") == msg->Signals[i].Name))
+            if (is_named(msg->Signals[i], cmmnt.SigName))
             {
               SignalDescriptor_t& sig = msg->Signals[i];
               // signal has been found, update commnet text
@@ -259,7 +265,7 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
         {
           for (size_t i = 0; i < msg->Signals.size(); i++)
           {
-            if ((cmmnt.SigName == msg->Signals[i].Name) || ((cmmnt.SigName + "_ro") == msg->Signals[i].Name))
+            if (is_named(msg->Signals[i], cmmnt.SigName))
             {
               // signal has been found, update commnet text
               msg->Signals[i].ValueText = cmmnt.Text;
-- 
2.43.0


From 9f36ad026e372212bd54f6dff62110916641eef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:29 +0000
Subject: [PATCH 34/42] fix: a measure unit with ' : ' in it drops the signal

---
 src/parser/dbclineparser.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 3ed83f6..1bc4c4d 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -202,21 +202,21 @@ bool DbcLineParser::IsSignalLine(const std::string& line)
 
 bool DbcLineParser::ParseSignalLine(SignalDescriptor_t* sig, const std::string& line)
 {
-  // split line in two parts
-  auto halfs = resplit(line, kRegSigSplit1, -1);
+  // split line in two parts at the first delimiter, the measure unit can contain it too
+  std::smatch delimiter;
 
-  if (halfs.size() < 2)
+  if (!std::regex_search(line, delimiter, std::regex(kRegSigSplit1)))
   {
     return false;
   }
 
   // split tail
-  auto tailpart = resplit(halfs[1], kregSigSplit2, -1);
+  auto tailpart = resplit(delimiter.suffix().str(), kregSigSplit2, -1);
 
   // split middle part on dedicated values
   auto valpart = resplit(trim(tailpart[0]), kRegSigReceivers, -1);
 
-  halfs = resplit(halfs[0], kRegValTable, 0);
+  auto halfs = resplit(delimiter.prefix().str(), kRegValTable, 0);
 
   if (halfs.size() >= 2)
   {
-- 
2.43.0


From 9709fcac033b7754372f6507cc74b78d64de494a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:52 +0000
Subject: [PATCH 35/42] fix: annotations of an extended frame reach a standard
 frame with the same number

---
 src/parser/dbclineparser.cpp | 4 ++--
 src/parser/dbcscanner.cpp    | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 1bc4c4d..7853f1e 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -103,7 +103,7 @@ static uint32_t clear_msgid(uint32_t messageid)
 // identifier that no message can have
 static const uint32_t kNoMessageId = 0xFFFFFFFFU;
 
-// message identifier which an annotation refers to
+// message identifier which an annotation refers to, with the mark of an extended one
 static uint32_t annotated_msgid(const std::string& text)
 {
   const long long id = atoll(text.c_str());
@@ -113,7 +113,7 @@ static uint32_t annotated_msgid(const std::string& text)
     return kNoMessageId;
   }
 
-  return clear_msgid(static_cast<uint32_t>(id));
+  return static_cast<uint32_t>(id);
 }
 
 DbcLineParser::DbcLineParser()
diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 492e907..5a9ed7a 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -19,7 +19,8 @@ MessageDescriptor_t* find_message(vector<MessageDescriptor_t*> msgs, uint32_t ID
 
   for (size_t i = 0; i < msgs.size(); i++)
   {
-    if (msgs[i]->MsgID == ID)
+    // a standard and an extended frame can have the same number
+    if ((msgs[i]->IsExt ? (0x80000000U | msgs[i]->MsgID) : msgs[i]->MsgID) == ID)
     {
       // Frame found
       ret = msgs[i];
-- 
2.43.0


From 0221aa9af8fc6aa46789c6a752208fe18d1f8a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:13 +0000
Subject: [PATCH 36/42] fix: a line of a comment is taken for an attribute or a
 value table

---
 src/parser/dbcscanner.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 5a9ed7a..94578be 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -175,6 +175,8 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
 
   AttributeDescriptor_t attr;
 
+  bool in_comment = false;
+
   while (std::getline(readstrm, sline))
   {
     sline = str_trim(sline);
@@ -249,6 +251,13 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
       }
     }
 
+    if (in_comment || sline.find("CM_") == 0)
+    {
+      // the text of a comment is not a definition
+      in_comment = sline.empty() || sline.back() != ';';
+      continue;
+    }
+
     if (lparser.ParseValTableLine(&cmmnt, sline, vals))
     {
       // update message comment field
-- 
2.43.0


From a9de3ccbb73024f9e8774424e6a8f0cf2577979f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:23 +0000
Subject: [PATCH 37/42] fix: a line break in an attribute or a value table
 joins two words

---
 src/parser/dbclineparser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 7853f1e..430dfe5 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -550,7 +550,8 @@ bool DbcLineParser::ParseAttributeLine(AttributeDescriptor_t* attr, const std::s
     }
     else if (attribline.size() > 0)
     {
-      attribline += line;
+      // the line break separates words
+      attribline += ' ' + line;
     }
 
     // check if the current line is last
@@ -589,7 +590,8 @@ bool DbcLineParser::ParseValTableLine(Comment_t* comm, const std::string& line,
     }
     else if (valueline.size() > 0)
     {
-      valueline += line;
+      // the line break separates words
+      valueline += ' ' + line;
     }
 
     // check if the current line is last
-- 
2.43.0


From 91913c9452a3f3ac4069d4def0cfe217fcd056ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:33 +0000
Subject: [PATCH 38/42] fix: a message with a space before the colon is dropped

---
 src/parser/dbclineparser.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 430dfe5..b7111b9 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -11,7 +11,7 @@
 constexpr double MIN_FAC_OFF = 0.000000001;
 
 // Message line definitions
-static const std::string regMessage = "[^A-Za-z0-9_.-]";
+static const std::string regMessage = "[^A-Za-z0-9_.-]+";
 static const std::string MessageLineStart = "BO_ ";
 
 // Signal line definitions
@@ -135,12 +135,13 @@ bool DbcLineParser::ParseMessageLine(MessageDescriptor_t* msg, const std::string
   // Parse DBC message line
   auto items = resplit(line, regMessage, -1);
 
-  if (items.size() < 5)
+  // the name and the length are separated by a colon, with or without spaces around it
+  if (items.size() < 4 || line.find(':') == std::string::npos)
   {
     return false;
   }
 
-  std::string txname = (items.size() >= 6) ? (items[5]) : ("");
+  std::string txname = (items.size() >= 5) ? (items[4]) : ("");
 
   if (txname.size() > 0)
   {
@@ -150,7 +151,7 @@ bool DbcLineParser::ParseMessageLine(MessageDescriptor_t* msg, const std::string
   msg->Name = items[2];
 
   const long long msgid = atoll(items[1].c_str());
-  const long long dlc = atoll(items[4].c_str());
+  const long long dlc = atoll(items[3].c_str());
 
   if (msgid < 0 || msgid > UINT_MAX || dlc <= 0 || dlc > CONF_LIMIT_MAX_DLC)
   {
-- 
2.43.0


From 1f8abd9d5d392ce18ddba00060f99790f542babe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:43 +0000
Subject: [PATCH 39/42] fix: a signal without spaces around the colon is
 dropped

---
 src/parser/dbclineparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index b7111b9..336449a 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -17,7 +17,7 @@ static const std::string MessageLineStart = "BO_ ";
 // Signal line definitions
 static const std::string kRegSigReceivers = "[^A-Za-z0-9_.+-]+";
 static const std::string kRegSigSplit0 = "[^\\w]+";
-static const std::string kRegSigSplit1 = "(\\s+:\\s+)";
+static const std::string kRegSigSplit1 = "(\\s*:\\s*)";
 static const std::string kregSigSplit2 = "(\")";
 
 // This reg splits line to parts delimited by (")
-- 
2.43.0


From 84a2892cd4ff695147359da1556937d6bf0fd31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:55 +0000
Subject: [PATCH 40/42] fix: the sign of a negative identifier in an attribute
 or a transmitter list is lost

---
 src/parser/dbclineparser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 336449a..be0f0c3 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -25,8 +25,8 @@ static const std::string kRegCommMain = "\"";
 static const std::string kRegCommMeta = "[ ]+";
 
 // This reg splits line to parts (for attributes)
-static const std::string kRegAttrMain = "[^A-Za-z0-9_\\.]+";
-static const std::string kTransmittersList = "[^a-zA-Z_0-9]+";
+static const std::string kRegAttrMain = "[^A-Za-z0-9_\\.-]+";
+static const std::string kTransmittersList = "[^a-zA-Z_0-9-]+";
 
 // Regex template to split string by spaces BUT NOT what inside quotes OR apostrophes
 // [^\s"']+|"([^"]*)"|'([^']*)'
-- 
2.43.0


From 3059abce0e5c06fbddc4c2ea1758dd0f311f2b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:36 +0000
Subject: [PATCH 41/42] fix: a backslash at the end of a value description
 swallows the next generated line

---
 src/parser/dbclineparser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index be0f0c3..2a6eb5a 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -617,7 +617,8 @@ bool DbcLineParser::ParseValTableLine(Comment_t* comm, const std::string& line,
         for (size_t valpair = 3; valpair < (items.size() - 1); valpair += 2)
         {
           comm->Text += " " + items[valpair + 0] + " : ";
-          comm->Text += items[valpair + 1] + '\n';
+          // without a backslash at the line end: it would join the next generated line
+          comm->Text += std::regex_replace(items[valpair + 1], std::regex("\\\\+$"), "") + '\n';
 
           auto valdef = make_c_name(items[valpair + 1]);
           vtab.vpairs.push_back({valdef, (uint32_t)atoll((items[valpair + 0]).c_str())});
-- 
2.43.0


From d71199e82d8526638ebf85b8d2f9d2a336eaae74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:16 +0000
Subject: [PATCH 42/42] fix: a DBC file name that can't be tested ends the
 program with an exception

---
 src/app.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/app.cpp b/src/app.cpp
index 2bb4db6..b397f50 100644
--- a/src/app.cpp
+++ b/src/app.cpp
@@ -87,7 +87,10 @@ void CoderApp::GenerateCode()
   std::cout << "gen path : " << Params.outdir.first << std::endl;
   std::cout << "drv name : " << Params.drvname.first << std::endl;
 
-  if (std::filesystem::exists(Params.dbc.first) == false)
+  // a name that can't be tested (too long, no access) is not a file to read
+  std::error_code ec;
+
+  if (std::filesystem::exists(Params.dbc.first, ec) == false)
   {
     std::cout << "DBC file is not exists!" << std::endl;
     return;
-- 
2.43.0

