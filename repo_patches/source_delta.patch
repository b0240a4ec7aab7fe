From 26c9bdb56413c956baeeb39094103cdd9267ba73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:36 +0000
Subject: [PATCH 01/34] fix: reject signals whose last bytes lie outside the
 message

---
 src/codegen/c-sigprinter.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index 3ea51cd..596708a 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -251,7 +251,7 @@ std::string CSigPrinter::PrintSignalExpr(const SignalDescriptor_t* sig, std::vec
 
       bn = ShiftByte(sig, bn);
 
-      if (to_bytes.size() < bn)
+      if (to_bytes.size() <= bn)
       {
         // DLC from message doesn't fit to signal layout
         // make code uncomplilable
@@ -290,6 +290,14 @@ std::string CSigPrinter::PrintSignalExpr(const SignalDescriptor_t* sig, std::vec
     {
       bn = ShiftByte(sig, bn);
 
+      if (to_bytes.size() <= bn)
+      {
+        // DLC from message doesn't fit to signal layout
+        // make code uncomplilable
+        to_bytes[0] = "Error in DBC file !!!! Dlc of this message must be greater.";
+        return to_bytes[0];
+      }
+
       snprintf(workbuff, WBUFF_LEN, " | ((_d[%d] >> %dU) & (%s))", bn, 8 - slen, msk[slen].c_str());
       tosigexpr += workbuff;
 
-- 
2.43.0


From 38ac52cad519688dee3587746e01d7e4ae454535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:36 +0000
Subject: [PATCH 02/34] fix: do not move signals beyond bit 511 back into the
 frame

---
 src/codegen/c-sigprinter.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index 596708a..bc63584 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -188,17 +188,12 @@ std::string CSigPrinter::PrintSignalExpr(const SignalDescriptor_t* sig, std::vec
     return "Error in DBC file !!!! Dlc of this message must be greater.";
   }
 
-  uint16_t startb = (uint16_t)((sig->Order == BitLayout::kIntel) ?
+  uint32_t startb = ((sig->Order == BitLayout::kIntel) ?
     (sig->StartBit + (sig->LengthBit - 1)) : (sig->StartBit));
 
-  if (startb > CONF_LIMIT_HIGHEST_BIT_POSITION)
-  {
-    startb = CONF_LIMIT_HIGHEST_BIT_POSITION;
-  }
-
   uint32_t bn = (startb / 8);
 
-  if (to_bytes.size() <= bn)
+  if (to_bytes.size() <= bn || to_bytes.size() <= (sig->StartBit / 8))
   {
     // DLC from message doesn't fit to signal layout
     // make code uncomplilable
-- 
2.43.0


From 311b9786e092accd80c58533fc05b23b72933068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:36 +0000
Subject: [PATCH 03/34] fix: widen payload bytes before shifts that exceed 32
 bits

---
 src/codegen/c-sigprinter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index bc63584..9031a4e 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -227,7 +227,7 @@ std::string CSigPrinter::PrintSignalExpr(const SignalDescriptor_t* sig, std::vec
     std::string t64 = "";
     slen -= bbc;
 
-    if (slen > 31)
+    if (slen > 24)
     {
       t64 = "(uint64_t)";
     }
@@ -268,7 +268,7 @@ std::string CSigPrinter::PrintSignalExpr(const SignalDescriptor_t* sig, std::vec
       }
       else
       {
-        if (slen > 31)
+        if (slen > 24)
         {
           t64 = "(uint64_t)";
         }
-- 
2.43.0


From 52994165205b450e9d24cf474330b2daf0c96e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:36 +0000
Subject: [PATCH 04/34] fix: sign extension of signals wider than 32 bits

---
 src/codegen/c-main-generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index dc9c5ae..d92716f 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -27,7 +27,7 @@ const char* extend_func_body =
   "// Defined these typedefs in @dbccodeconf.h or locally in 'dbcdrvname'-config.h\n"
   "static bitext_t %s(ubitext_t val, uint8_t bits)\n"
   "{\n"
-  "  ubitext_t const m = (ubitext_t) (1u << (bits - 1u));\n"
+  "  ubitext_t const m = ((ubitext_t) 1u) << (bits - 1u);\n"
   "  return ((val ^ m) - m);\n"
   "}\n\n";
 
-- 
2.43.0


From 7d0ed7a32abc42f1545b5624b63e84dc170e6be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:36 +0000
Subject: [PATCH 05/34] fix: support checksum signals behind the eighth byte

---
 src/codegen/c-sigprinter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index 9031a4e..02fd385 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -159,11 +159,11 @@ int32_t CSigPrinter::BuildCConvertExprs(CiExpr_t* msgprinter)
 
   if (msgprinter->msg.CsmSig != nullptr)
   {
-    std::vector<std::string> v(8);
+    std::vector<std::string> v(msgprinter->msg.DLC);
 
     PrintSignalExpr(msgprinter->msg.CsmSig, v);
 
-    for (uint8_t i = 0; i < v.size() && i < 8; i++)
+    for (uint8_t i = 0; i < v.size(); i++)
     {
       if (v[i].size() > 0)
       {
-- 
2.43.0


From 7c49796c0681031a837bb18cb1c1516e4902ad3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:36 +0000
Subject: [PATCH 06/34] fix: padding underflow for long rolling counter names

---
 src/codegen/c-main-generator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index d92716f..1791a9c 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -239,6 +239,11 @@ void CiMainGenerator::Gen_MainHeader()
       rollsig = (*m.RollSig);
       rollsig.CommentText = "";
       rollsig.Name += "_expt";
+
+      if (rollsig.Name.size() > max_sig_name_len)
+      {
+        max_sig_name_len = rollsig.Name.size();
+      }
     }
 
     for (size_t signum = 0; signum < m.Signals.size(); signum++)
-- 
2.43.0


From 4da5da703f13aa22a00250c442ae6810ab7c7b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:36 +0000
Subject: [PATCH 07/34] fix: rolling counter mask for counters of 31 bits and
 more

---
 src/codegen/c-main-generator.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index 1791a9c..8cbe995 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -744,8 +744,8 @@ void CiMainGenerator::WriteUnpackBody(const CiExpr_t* sgs)
     fwriter.Append("#ifdef %s", fdesc->gen.useroll_def.c_str());
     fwriter.Append("  _m->mon1.roll_error = (_m->%s != _m->%s_expt);",
       sgs->msg.RollSig->Name.c_str(), sgs->msg.RollSig->Name.c_str());
-    fwriter.Append("  _m->%s_expt = (_m->%s + 1) & (0x%02XU);", sgs->msg.RollSig->Name.c_str(),
-      sgs->msg.RollSig->Name.c_str(), (1 << sgs->msg.RollSig->LengthBit) - 1);
+    fwriter.Append("  _m->%s_expt = (_m->%s + 1) & (0x%02llXU);", sgs->msg.RollSig->Name.c_str(),
+      sgs->msg.RollSig->Name.c_str(), (~0ull) >> (64u - sgs->msg.RollSig->LengthBit));
     // Put rolling monitor here
     fwriter.Append("#endif // %s", fdesc->gen.useroll_def.c_str());
     fwriter.Append();
@@ -809,8 +809,8 @@ void CiMainGenerator::PrintPackCommonText(const std::string& arrtxt, const CiExp
   if (sgs->msg.RollSig != nullptr)
   {
     fwriter.Append("#ifdef %s", fdesc->gen.useroll_def.c_str());
-    fwriter.Append("  _m->%s = (_m->%s + 1) & (0x%02XU);", sgs->msg.RollSig->Name.c_str(),
-      sgs->msg.RollSig->Name.c_str(), (1 << sgs->msg.RollSig->LengthBit) - 1);
+    fwriter.Append("  _m->%s = (_m->%s + 1) & (0x%02llXU);", sgs->msg.RollSig->Name.c_str(),
+      sgs->msg.RollSig->Name.c_str(), (~0ull) >> (64u - sgs->msg.RollSig->LengthBit));
     fwriter.Append("#endif // %s", fdesc->gen.useroll_def.c_str());
     fwriter.Append();
   }
-- 
2.43.0


From 61df5c31dec75fc9480aca06fd5b486dd7e9efff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:36 +0000
Subject: [PATCH 08/34] fix: maximum DLC must cover the last message

---
 src/parser/dbcscanner.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 2757b35..5f328e4 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -43,6 +43,7 @@ DbcScanner::~DbcScanner()
 int32_t DbcScanner::TrimDbcText(istream& readstrm)
 {
   dblist.msgs.clear();
+  dblist.maxDlcValue = 0u;
   dblist.ver.hi = dblist.ver.low = 0;
 
   readstrm.clear();
@@ -80,12 +81,6 @@ void DbcScanner::ParseMessageInfo(istream& readstrm)
     // New message line has been found
     if (lparser.IsMessageLine(sline))
     {
-      // if actual message, check DLC value for being max
-      if ((pMsg != nullptr) && (pMsg->DLC > dblist.maxDlcValue))
-      {
-        dblist.maxDlcValue = pMsg->DLC;
-      }
-
       // the message will be added only if pMsg is not nullptr
       AddMessage(pMsg);
 
@@ -287,6 +282,12 @@ void DbcScanner::AddMessage(MessageDescriptor_t* message)
 {
   if (message != nullptr)
   {
+    // check DLC value for being max
+    if (message->DLC > dblist.maxDlcValue)
+    {
+      dblist.maxDlcValue = message->DLC;
+    }
+
     if (message->Signals.size() > 0)
     {
       // sort signals by start bit
-- 
2.43.0


From 9607d0ce192bf4246ec77bdae2265e6acdb6cc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:36 +0000
Subject: [PATCH 09/34] fix: do not carry unfinished definitions over to the
 next scan

---
 src/parser/dbcscanner.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 5f328e4..4dec05d 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -44,6 +44,8 @@ int32_t DbcScanner::TrimDbcText(istream& readstrm)
 {
   dblist.msgs.clear();
   dblist.maxDlcValue = 0u;
+  // drop unfinished multi-line definitions of the previous text
+  lparser = DbcLineParser();
   dblist.ver.hi = dblist.ver.low = 0;
 
   readstrm.clear();
-- 
2.43.0


From 16d9f19feee6f9ab4ec0035385424bfeb2912b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:36 +0000
Subject: [PATCH 10/34] fix: entries for unknown messages must not change the
 last message

---
 src/parser/dbcscanner.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 4dec05d..6eb850a 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -19,11 +19,10 @@ MessageDescriptor_t* find_message(vector<MessageDescriptor_t*> msgs, uint32_t ID
 
   for (size_t i = 0; i < msgs.size(); i++)
   {
-    ret = msgs[i];
-
-    if (ret->MsgID == ID)
+    if (msgs[i]->MsgID == ID)
     {
       // Frame found
+      ret = msgs[i];
       break;
     }
   }
-- 
2.43.0


From 3ceed76c2f7b46853e17b4aa5c8c01f56771e330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:36 +0000
Subject: [PATCH 11/34] fix: huge version numbers must not throw

---
 src/parser/dbcscanner.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 6eb850a..29a3362 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -358,8 +358,8 @@ static bool ParseVersionLine(const std::string& line, std::string& str, uint32_t
     {
       // 1 for the whole match and 3 for the capture groups
       str = matches[1].str();
-      num1 = std::stoul(matches[2].str());
-      num2 = std::stoul(matches[3].str());
+      num1 = std::strtoul(matches[2].str().c_str(), nullptr, 10);
+      num2 = std::strtoul(matches[3].str().c_str(), nullptr, 10);
       // successfully matched all three parts
       return true;
     }
-- 
2.43.0


From 1f1d1b9e4edbb9a624bee988ce94a29d77b1f6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:36 +0000
Subject: [PATCH 12/34] fix: extract the checksum marker independently of its
 position

---
 src/parser/dbcscanner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 29a3362..0a16a1a 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -206,7 +206,7 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
 
                 if ((closepos != std::string::npos) && (closepos > (openpos + 1)))
                 {
-                  auto substr = cmmnt.Text.substr(openpos + 1, closepos - 1);
+                  auto substr = cmmnt.Text.substr(openpos + 1, closepos - openpos - 1);
 
                   auto meta = resplit(substr, "(\\:)", -1);
 
-- 
2.43.0


From 1a5cf5b5bb0dc65861c08ed450cce6abf3a322b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:36 +0000
Subject: [PATCH 13/34] fix: check the data length before narrowing it to 8
 bits

---
 src/parser/dbclineparser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index d676f16..e4d61e2 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -135,13 +135,15 @@ bool DbcLineParser::ParseMessageLine(MessageDescriptor_t* msg, const std::string
 
   msg->MsgID = static_cast<uint32_t>(atoll(items[1].c_str()));
 
-  msg->DLC = atoi(items[4].c_str());
+  const int dlc = atoi(items[4].c_str());
 
-  if ((msg->MsgID & 0x60000000) != 0 || msg->DLC == 0 || msg->DLC > CONF_LIMIT_MAX_DLC)
+  if ((msg->MsgID & 0x60000000) != 0 || dlc <= 0 || dlc > static_cast<int>(CONF_LIMIT_MAX_DLC))
   {
     return false;
   }
 
+  msg->DLC = static_cast<uint8_t>(dlc);
+
   msg->IsExt = ((uint8_t)(msg->MsgID >> 29) & 0x04) == 0x04 ? 1 : 0;
 
   msg->MsgID = clear_msgid(msg->MsgID);
-- 
2.43.0


From add181961b14182766183d7343c5f74bf457ff34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:36 +0000
Subject: [PATCH 14/34] fix: keep transmitters with one-letter names

---
 src/parser/dbclineparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index e4d61e2..8b7aab8 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -126,7 +126,7 @@ bool DbcLineParser::ParseMessageLine(MessageDescriptor_t* msg, const std::string
 
   std::string txname = (items.size() >= 6) ? (items[5]) : ("");
 
-  if (txname.size() > 1)
+  if (txname.size() > 0)
   {
     msg->TranS.push_back(txname);
   }
-- 
2.43.0


From 37922df6875819a0b0047e6ede22279f7956b4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:36 +0000
Subject: [PATCH 15/34] fix: reject signals without bits or with more than 64
 bits

---
 src/parser/dbclineparser.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 8b7aab8..f9bb216 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -230,7 +230,16 @@ bool DbcLineParser::ParseSignalLine(SignalDescriptor_t* sig, const std::string&
   else
   {
     sig->StartBit = atoi(valpart[0].c_str());
-    sig->LengthBit = atoi(valpart[1].c_str());
+
+    const int length = atoi(valpart[1].c_str());
+
+    if (length < 1 || length > 64)
+    {
+      // there is no type which can hold such signal
+      return false;
+    }
+
+    sig->LengthBit = static_cast<uint8_t>(length);
 
     // get info about factor or offset double nature
     sig->IsDoubleSig = false;
-- 
2.43.0


From 1d28780d913206c3d7f890c7928425ec69f4128b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:19 +0000
Subject: [PATCH 16/34] fix: physical types of signals with negative factors or
 wide ranges

---
 src/parser/dbclineparser.cpp | 123 +++++++----------------------------
 1 file changed, 25 insertions(+), 98 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index f9bb216..4f84506 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -36,22 +36,6 @@ static const std::string kTransmittersList = "[^a-zA-Z_0-9]+";
 
 static const std::string kRegValTable = "[^\\s\"]+|\"([^\"]*)\"";
 
-static uint64_t __maxunsigvalues[] =
-{
-  UCHAR_MAX,
-  USHRT_MAX,
-  UINT_MAX,
-  ULLONG_MAX
-};
-
-static uint64_t __maxsignedvals[] =
-{
-  CHAR_MAX,
-  SHRT_MAX,
-  INT_MAX,
-  LLONG_MAX
-};
-
 //* @param __submatch
 // - -1 each enumerated subexpression does NOT
 // match the regular expression (aka field
@@ -335,107 +319,50 @@ bool DbcLineParser::ParseSignalLine(SignalDescriptor_t* sig, const std::string&
 // TODO: refactor algorythm detection type of signal
 SigType DbcLineParser::GetSigType(SignalDescriptor_t* sig)
 {
-  SigType ret = SigType::u64;
-
-  uint8_t is_unsigned = 0;
-
-  int64_t roffset = (int64_t)(sig->Offset / sig->Factor);
-
-  uint64_t max_v = 0;
+  // number of bits for each type width
+  static const uint8_t widths[] = { 8, 16, 32, 64 };
 
   // 1 step is to detect type of _ro
-  int64_t max_abs, min_abs;
-
-  int64_t addon = 0;
-
-  if (sig->Signed)
+  for (size_t i = 0; i < 4; i++)
   {
-    addon = 1;
-    max_abs = static_cast<int64_t>((std::pow(2, sig->LengthBit - 1) - 1));
-    min_abs = (max_abs + 1) * -1;
+    sig->TypeRo = (SigType)(sig->Signed ? i : (i + 4));
 
-    for (size_t i = 0; i < 4; i++)
+    if (sig->LengthBit <= widths[i])
     {
-      sig->TypeRo = (SigType)(i);
-
-      if (max_abs <= __maxsignedvals[i])
-      {
-        break;
-      }
+      break;
     }
   }
-  else
-  {
-    max_abs = static_cast<int64_t>((std::pow(2, sig->LengthBit) - 1));
-    min_abs = 0;
 
-    for (size_t i = 0; i < 4; i++)
-    {
-      sig->TypeRo = (SigType)(i + 4);
+  // the most simple case, TypePhys is the same as TypeRo
+  sig->TypePhys = sig->TypeRo;
 
-      if (max_abs <= __maxunsigvalues[i])
-      {
-        break;
-      }
-    }
-  }
-
-  if (sig->IsSimpleSig)
-  {
-    // the most simple case, TypePhys is the same as TypeRo
-    sig->TypePhys = sig->TypeRo;
-  }
-
-  else if (sig->IsDoubleSig == false)
+  if (sig->IsDoubleSig == false)
   {
-    int64_t i_offset = (int64_t)sig->Offset;
-    int64_t i_factor = (int64_t)sig->Factor;
+    // get the limits with applied factor and offset (physical values)
+    const double raw_max = std::pow(2, sig->LengthBit - (sig->Signed ? 1 : 0)) - 1;
+    const double raw_min = sig->Signed ? (-1 - raw_max) : 0;
+    const double end_a = raw_max * sig->Factor + sig->Offset;
+    const double end_b = raw_min * sig->Factor + sig->Offset;
+    const double phys_max = std::fmax(end_a, end_b);
+    const double phys_min = std::fmin(end_a, end_b);
 
-    // get max and min values with applied factor and offset (physical values)
-    max_abs = max_abs * i_factor + i_offset;
-    min_abs = min_abs * i_factor + i_offset;
+    // phys value must be signed
+    const bool is_signed = sig->Signed || (phys_min < 0);
 
-    if (sig->Signed || max_abs < 0 || min_abs < 0)
+    for (size_t i = 0; i < 4; i++)
     {
-      // phys value must be signed
-      uint64_t max_v = std::abs(max_abs);
-      uint64_t addon = 0;
+      sig->TypePhys = (SigType)(is_signed ? i : (i + 4));
 
-      if ((max_v + 1) < std::abs(min_abs))
-      {
-        // low part is main
-        addon = 1;
-        max_v = std::abs(min_abs);
-      }
+      const double limit = std::pow(2, widths[i] - (is_signed ? 1 : 0));
 
-      for (size_t i = 0; i < 4; i++)
+      if ((phys_max < limit) && (!is_signed || phys_min >= -limit))
       {
-        sig->TypePhys = (SigType)(i);
-
-        if (max_v <= __maxsignedvals[i] + addon)
-        {
-          break;
-        }
-      }
-    }
-    else
-    {
-      // phys value must be unsigned
-      for (uint8_t i = 0; i < 4; i++)
-      {
-        if ((uint64_t)max_abs <= __maxunsigvalues[i])
-        {
-          sig->TypePhys = (SigType)(i + 4);
-          break;
-        }
+        break;
       }
     }
   }
-  else
-  {
-    // in this case TypePhys will be (sigfloat_t), so
-    // there is no necessity to determine physical signal type
-  }
+  // for double signals TypePhys will be (sigfloat_t), so
+  // there is no necessity to determine physical signal type
 
   return sig->TypeRo;
 }
-- 
2.43.0


From 1168e1e57ed82a38880eef0c82ccaae011d2ee21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:01 +0000
Subject: [PATCH 17/34] fix: integer conversions beyond 32 bits

---
 src/codegen/c-sigprinter.cpp | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/codegen/c-sigprinter.cpp b/src/codegen/c-sigprinter.cpp
index 02fd385..8e5dd84 100644
--- a/src/codegen/c-sigprinter.cpp
+++ b/src/codegen/c-sigprinter.cpp
@@ -1,4 +1,5 @@
 #include <stdlib.h>
+#include <cmath>
 #include <memory>
 #include "c-sigprinter.h"
 #include "helpers/formatter.h"
@@ -51,12 +52,32 @@ void CSigPrinter::LoadMessage(const MessageDescriptor_t& message)
   sigs_expr.push_back(nexpr);
 }
 
+// Integer conversions are performed in (int), this function returns the cast to wider
+// type if the signal needs it
+static const char* ConversionCast(const SignalDescriptor_t* sig)
+{
+  const double raw_abs = std::pow(2, sig->LengthBit - (sig->Signed ? 1 : 0));
+
+  if (sig->Factor < 0)
+  {
+    return "(int64_t)";
+  }
+
+  if (raw_abs * sig->Factor + 2 * std::fabs(sig->Offset) < 2147483647.0)
+  {
+    return "";
+  }
+
+  return (sig->TypePhys == SigType::u64) ? "(uint64_t)" : "(int64_t)";
+}
+
 std::string CSigPrinter::PrintPhysicalToRaw(const SignalDescriptor_t* sig, const std::string& drvname)
 {
   std::string retstr = "";
 
   const std::string prtFactor = prt_double(sig->Factor, 9);
   const std::string prtOffset = prt_double(sig->Offset, 9);
+  const char* cast = ConversionCast(sig);
 
   retstr = StrPrint("// signal: @%s\n", sig->Name.c_str());
 
@@ -66,7 +87,7 @@ std::string CSigPrinter::PrintPhysicalToRaw(const SignalDescriptor_t* sig, const
   }
   else
   {
-    retstr += StrPrint("#define %s_%s_CovFactor (%d)\n", drvname.c_str(), sig->Name.c_str(), (int32_t)sig->Factor);
+    retstr += StrPrint("#define %s_%s_CovFactor (%lld)\n", drvname.c_str(), sig->Name.c_str(), (long long)sig->Factor);
   }
 
   retstr += StrPrint("#define %s_%s_toS(x) ( (%s) ", drvname.c_str(), sig->Name.c_str(),
@@ -81,17 +102,17 @@ std::string CSigPrinter::PrintPhysicalToRaw(const SignalDescriptor_t* sig, const
     if (sig->Offset == 0)
     {
       // only factor
-      retstr += StrPrint("((x) / (%d)) )\n", (int32_t)sig->Factor);
+      retstr += StrPrint("(%s(x) / (%lld)) )\n", cast, (long long)sig->Factor);
     }
     else if (sig->Factor == 1)
     {
       // only offset
-      retstr += StrPrint("((x) - (%d)) )\n", (int32_t)sig->Offset);
+      retstr += StrPrint("(%s(x) - (%lld)) )\n", cast, (long long)sig->Offset);
     }
     else
     {
       // full expression
-      retstr += StrPrint("(((x) - (%d)) / (%d)) )\n", (int32_t)sig->Offset, (int32_t)sig->Factor);
+      retstr += StrPrint("((%s(x) - (%lld)) / (%lld)) )\n", cast, (long long)sig->Offset, (long long)sig->Factor);
     }
   }
 
@@ -106,17 +127,17 @@ std::string CSigPrinter::PrintPhysicalToRaw(const SignalDescriptor_t* sig, const
     if (sig->Offset == 0)
     {
       // only factor
-      retstr += StrPrint("((x) * (%d)) )\n", (int32_t)sig->Factor);
+      retstr += StrPrint("(%s(x) * (%lld)) )\n", cast, (long long)sig->Factor);
     }
     else if (sig->Factor == 1)
     {
       // only offset
-      retstr += StrPrint("((x) + (%d)) )\n", (int32_t)sig->Offset);
+      retstr += StrPrint("(%s(x) + (%lld)) )\n", cast, (long long)sig->Offset);
     }
     else
     {
       // full expression
-      retstr += StrPrint("(((x) * (%d)) + (%d)) )\n", (int32_t)sig->Factor, (int32_t)sig->Offset);
+      retstr += StrPrint("((%s(x) * (%lld)) + (%lld)) )\n", cast, (long long)sig->Factor, (long long)sig->Offset);
     }
   }
 
-- 
2.43.0


From cd6cea3aab87090a2c60c5d7f270a21f1756fa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:01 +0000
Subject: [PATCH 18/34] fix: attach comments and value tables to exactly the
 named signal

---
 src/parser/dbcscanner.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index 0a16a1a..a910ef8 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -30,6 +30,13 @@ MessageDescriptor_t* find_message(vector<MessageDescriptor_t*> msgs, uint32_t ID
   return ret;
 }
 
+// Checks if the signal has the name in the dbc file (the name of scaled
+// signal was marked by _ro)
+static bool has_dbc_name(const SignalDescriptor_t& sig, const std::string& name)
+{
+  return sig.Name == (sig.IsSimpleSig ? name : (name + "_ro"));
+}
+
 DbcScanner::DbcScanner()
 {
   dblist.maxDlcValue = 0u;
@@ -183,7 +190,7 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
         {
           for (size_t i = 0; i < msg->Signals.size(); i++)
           {
-            if ((cmmnt.SigName == msg->Signals[i].Name) || ((cmmnt.SigName + "_ro") == msg->Signals[i].Name))
+            if (has_dbc_name(msg->Signals[i], cmmnt.SigName))
             {
               SignalDescriptor_t& sig = msg->Signals[i];
               // signal has been found, update commnet text
@@ -250,7 +257,7 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
         {
           for (size_t i = 0; i < msg->Signals.size(); i++)
           {
-            if (cmmnt.SigName == msg->Signals[i].Name)
+            if (has_dbc_name(msg->Signals[i], cmmnt.SigName))
             {
               // signal has been found, update commnet text
               msg->Signals[i].ValueText = cmmnt.Text;
-- 
2.43.0


From 7cdeb0a1a2d81d2fffa9df71bd98422b503ce599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:01 +0000
Subject: [PATCH 19/34] fix: value table numbers of more than 31 bits

---
 src/codegen/c-main-generator.cpp | 4 ++--
 src/parser/dbclineparser.cpp     | 2 +-
 src/types/comment.h              | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index 8cbe995..e83268f 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -213,9 +213,9 @@ void CiMainGenerator::Gen_MainHeader()
           // For this case only one of same named values will be available as macro
           fwriter.Append("#ifndef %s", defname.c_str());
 
-          fwriter.Append("#define %s_%s_%s (%d)",
+          fwriter.Append("#define %s_%s_%s (%lld)",
             s.Name.c_str(), m.Name.c_str(), s.ValDefs.vpairs[i].first.c_str(),
-            s.ValDefs.vpairs[i].second);
+            (long long)s.ValDefs.vpairs[i].second);
 
           fwriter.Append("#endif");
           fwriter.Append();
diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 4f84506..d3a9e59 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -520,7 +520,7 @@ bool DbcLineParser::ParseValTableLine(Comment_t* comm, const std::string& line,
           comm->Text += items[valpair + 1] + '\n';
 
           auto valdef = make_c_name(items[valpair + 1]);
-          vtab.vpairs.push_back({valdef, (uint32_t)atoll((items[valpair + 0]).c_str())});
+          vtab.vpairs.push_back({valdef, atoll((items[valpair + 0]).c_str())});
         }
 
         if (comm->Text.size() > 0)
diff --git a/src/types/comment.h b/src/types/comment.h
index 4af34fe..0d3cf12 100644
--- a/src/types/comment.h
+++ b/src/types/comment.h
@@ -40,6 +40,6 @@ struct ValTable_t
   std::string SigName;
 
   /// @brief Value table names and values pairs
-  std::vector<std::pair<std::string, uint32_t>> vpairs{};
+  std::vector<std::pair<std::string, int64_t>> vpairs{};
 
 };
-- 
2.43.0


From 3479efccbee592411bdcf0e6b701b0d926edc5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:01 +0000
Subject: [PATCH 20/34] fix: additional transmitters of the message with
 identifier 0

---
 src/parser/dbclineparser.cpp | 7 ++-----
 src/parser/dbcscanner.cpp    | 2 +-
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index d3a9e59..0034456 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -145,12 +145,9 @@ uint32_t DbcLineParser::ParseMultiTrans(std::vector<std::string>& outnodes, std:
   {
     ret = clear_msgid(static_cast<uint32_t>(atoll(chunks[1].c_str())));
 
-    if (ret != 0)
+    for (size_t i = 2; i < chunks.size(); i++)
     {
-      for (size_t i = 2; i < chunks.size(); i++)
-      {
-        outnodes.push_back(chunks[i]);
-      }
+      outnodes.push_back(chunks[i]);
     }
   }
 
diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index a910ef8..edf98ec 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -130,7 +130,7 @@ void DbcScanner::ParseMessageInfo(istream& readstrm)
 
     uint32_t msgid = lparser.ParseMultiTrans(tx_nodes, sline);
 
-    if (msgid != 0)
+    if (tx_nodes.size() > 0)
     {
       // In this place no messages will captured after,
       // so put temp pMsg as last message and null it
-- 
2.43.0


From f835af3cf29733efc5963df6b7bef2e2260b20c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:01 +0000
Subject: [PATCH 21/34] fix: comment lines ending with semicolon do not finish
 the comment

---
 src/parser/dbclineparser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 0034456..22711af 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -430,7 +430,11 @@ bool DbcLineParser::ParseCommentLine(Comment_t* cm, const std::string& line)
         ret = true;
       }
 
-      commentline.clear();
+      if (items.size() != 2)
+      {
+        // text is not closed yet in case of 2 items, the next line belongs to the comment
+        commentline.clear();
+      }
     }
   }
 
-- 
2.43.0


From dcc81a17461c97be7180a0541eac8e55323ea83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:01 +0000
Subject: [PATCH 22/34] fix: create missing parent directories

---
 src/codegen/fs-creator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/codegen/fs-creator.cpp b/src/codegen/fs-creator.cpp
index 944bce9..16531df 100644
--- a/src/codegen/fs-creator.cpp
+++ b/src/codegen/fs-creator.cpp
@@ -111,7 +111,7 @@ bool FsCreator::PrepareDirectory(bool rw)
     // for this case check only if directory exists
     if (stat(work_dir_path.c_str(), &info) != 0)
     {
-      if (!std::filesystem::create_directory(work_dir_path))
+      if (!std::filesystem::create_directories(work_dir_path))
       {
         ret = false;
       }
@@ -119,6 +119,9 @@ bool FsCreator::PrepareDirectory(bool rw)
   }
   else
   {
+    // base directory might not exist yet
+    std::filesystem::create_directories(basepath);
+
     std::string separator = basepath.back() == '/' ? "" : "/";
 
     for (int32_t dirnum = 0; dirnum < 1000; dirnum++)
-- 
2.43.0


From 6904d19fb1451d43fd4e1ede0918b85118985b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:22 +0000
Subject: [PATCH 23/34] fix: a file named as a numbered directory must not stop
 the generation

---
 src/codegen/fs-creator.cpp | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/codegen/fs-creator.cpp b/src/codegen/fs-creator.cpp
index 16531df..4f5a7a7 100644
--- a/src/codegen/fs-creator.cpp
+++ b/src/codegen/fs-creator.cpp
@@ -137,19 +137,8 @@ bool FsCreator::PrepareDirectory(bool rw)
           break;
         }
       }
-      else if (info.st_mode & S_IFDIR)
-      {
-        // directory exists, try next num
-        continue;
-      }
-      else
-      {
-        if (std::filesystem::create_directory(work_dir_path) != 0)
-        {
-          ret = false;
-          break;
-        }
-      }
+
+      // the name is in use, try next num
     }
   }
 
-- 
2.43.0


From 579ec786e40a209f4015197fd9586eca9eae388f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:22 +0000
Subject: [PATCH 24/34] fix: generate into the free numbered directory instead
 of overwriting

---
 src/codegen/fs-creator.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/codegen/fs-creator.cpp b/src/codegen/fs-creator.cpp
index 4f5a7a7..db141d6 100644
--- a/src/codegen/fs-creator.cpp
+++ b/src/codegen/fs-creator.cpp
@@ -101,7 +101,7 @@ bool FsCreator::PrepareDirectory(bool rw)
   struct stat info;
 
   std::string work_dir_path;
-  const auto& basepath = FS.file.core_h.dir;
+  const std::string basepath = FS.file.core_h.dir;
 
   if (rw)
   {
@@ -134,6 +134,9 @@ bool FsCreator::PrepareDirectory(bool rw)
         if (std::filesystem::create_directory(work_dir_path))
         {
           ret = true;
+          // all the files must be placed in the found directory
+          Configure(FS.gen.DrvName_orig, work_dir_path, FS.gen.start_common_info,
+            FS.gen.start_driver_info, FS.gen.hiver, FS.gen.lowver);
           break;
         }
       }
@@ -142,6 +145,11 @@ bool FsCreator::PrepareDirectory(bool rw)
     }
   }
 
+  if (!ret)
+  {
+    return ret;
+  }
+
   std::filesystem::create_directory(FS.file.libdir);
   std::filesystem::create_directory(FS.file.usrdir);
   std::filesystem::create_directory(FS.file.incdir);
-- 
2.43.0


From e349c47f825a1b12db798a35db0e20c17e4ca0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 25/34] fix: keep comment and unit text inside of the generated
 comments

---
 src/codegen/c-main-generator.cpp |  9 ++++-----
 src/helpers/formatter.cpp        | 31 +++++++++++++++++++++++++++++++
 src/helpers/formatter.h          |  9 +++++++++
 3 files changed, 44 insertions(+), 5 deletions(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index e83268f..6154b83 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -7,7 +7,6 @@
 #include <filesystem>
 #include <algorithm>
 #include <set>
-#include <regex>
 #include "helpers/formatter.h"
 #include "mon-generator.h"
 #include "config-generator.h"
@@ -155,7 +154,7 @@ void CiMainGenerator::Gen_MainHeader()
     if (m.CommentText.size() > 0)
     {
       // replace all '\n' on "\n //" for c code comment text
-      fwriter.Append("// " + std::regex_replace(m.CommentText, std::regex("\n"), "\n// "));
+      fwriter.Append("// " + make_line_comment(m.CommentText, "\n// "));
     }
 
     fwriter.Append("// def @%s CAN Message (%-4d %#x)", m.Name.c_str(), m.MsgID, m.MsgID);
@@ -564,12 +563,12 @@ void CiMainGenerator::WriteSigStructField(const SignalDescriptor_t& sig, bool bi
 {
   if (sig.CommentText.size() > 0)
   {
-    fwriter.Append("  // " + std::regex_replace(sig.CommentText, std::regex("\n"), "\n  // "));
+    fwriter.Append("  // " + make_line_comment(sig.CommentText, "\n  // "));
   }
 
   if (sig.ValueText.size() > 0)
   {
-    fwriter.Append("  // " + std::regex_replace(sig.ValueText, std::regex("\n"), "\n  // "));
+    fwriter.Append("  // " + make_line_comment(sig.ValueText, "\n  // "));
   }
 
   if (sig.Multiplex == MultiplexType::kMulValue)
@@ -645,7 +644,7 @@ void CiMainGenerator::WriteSigStructField(const SignalDescriptor_t& sig, bool bi
   if (sig.Unit.size() > 0)
   {
     infocmnt = IndentedString(offset, infocmnt);
-    infocmnt += StrPrint(" Unit:'%s'", sig.Unit.c_str());
+    infocmnt += " Unit:'" + make_line_comment(sig.Unit, " ") + "'";
   }
 
   fwriter.AppendText(infocmnt);
diff --git a/src/helpers/formatter.cpp b/src/helpers/formatter.cpp
index fd45a22..ff1d318 100644
--- a/src/helpers/formatter.cpp
+++ b/src/helpers/formatter.cpp
@@ -147,6 +147,37 @@ std::string make_c_name(const std::string& s)
   return ret;
 }
 
+std::string make_line_comment(const std::string& s, const std::string& newline)
+{
+  std::string ret{};
+
+  for (size_t i = 0; i <= s.length(); i++)
+  {
+    const bool last = (i == s.length());
+
+    if (last || s[i] == '\n')
+    {
+      // the line must not be continued by tailing backslash (or its trigraph)
+      const size_t tail = ret.find_last_not_of(" \t");
+
+      if (tail != std::string::npos && (ret[tail] == '\\' ||
+        (tail >= 2 && ret.compare(tail - 2, 3, "?\?/") == 0)))
+      {
+        ret.insert(tail + 1, ".");
+      }
+
+      ret += last ? "" : newline;
+    }
+    else
+    {
+      // other control symbols could end the comment
+      ret += (in_range<'\0', '\x1f'>(s[i]) && s[i] != '\t') ? ' ' : s[i];
+    }
+  }
+
+  return ret;
+}
+
 std::string prt_double(double value, size_t precision, bool usedot)
 {
   std::stringstream strstrm;
diff --git a/src/helpers/formatter.h b/src/helpers/formatter.h
index 163373f..ad75dab 100644
--- a/src/helpers/formatter.h
+++ b/src/helpers/formatter.h
@@ -32,6 +32,15 @@ std::string prt_double(double value, size_t precision, bool usedot = true);
  */
 std::string make_c_name(const std::string& s);
 
+/**
+ * @brief Makes text printable inside of line comment (//): each line of the text
+ * stays inside of the comment
+ *
+ * @param s source text
+ * @param newline text to be printed for each new line
+ */
+std::string make_line_comment(const std::string& s, const std::string& newline);
+
 template<size_t N = 4096>
 std::string StrPrintLoc(const char* format, ...)
 {
-- 
2.43.0


From a78e538ed65fa974c3955ffe0803f7ab05985409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:05 +0000
Subject: [PATCH 26/34] fix: reject message lines without a name

---
 src/parser/dbclineparser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 22711af..56f6368 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -117,6 +117,12 @@ bool DbcLineParser::ParseMessageLine(MessageDescriptor_t* msg, const std::string
 
   msg->Name = items[2];
 
+  if (msg->Name.empty())
+  {
+    // the line lacks the name of the message
+    return false;
+  }
+
   msg->MsgID = static_cast<uint32_t>(atoll(items[1].c_str()));
 
   const int dlc = atoi(items[4].c_str());
-- 
2.43.0


From 04aed6ad023f364a72fb678737e3cd963ba8fd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:19 +0000
Subject: [PATCH 27/34] fix: packed signal bits must not keep the initial byte
 value

---
 src/codegen/c-main-generator.cpp | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index 6154b83..397ff14 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -794,6 +794,30 @@ void CiMainGenerator::WritePackArrayBody(const CiExpr_t* sgs)
   fwriter.Append();
 }
 
+// Returns the mask of bits of the payload byte which are not assigned to any signal
+static unsigned UnusedBits(const MessageDescriptor_t& msg, size_t bytenum)
+{
+  unsigned mask = 0xFFu;
+
+  for (const auto& sig : msg.Signals)
+  {
+    size_t bit = sig.StartBit;
+
+    for (size_t i = 0; i < sig.LengthBit; i++)
+    {
+      if ((bit / 8) == bytenum)
+      {
+        mask &= ~(1u << (bit % 8));
+      }
+
+      // the next bit of Motorola signal is less significant one
+      bit = (sig.Order == BitLayout::kIntel) ? (bit + 1) : ((bit % 8) ? (bit - 1) : (bit + 15));
+    }
+  }
+
+  return mask;
+}
+
 void CiMainGenerator::PrintPackCommonText(const std::string& arrtxt, const CiExpr_t* sgs)
 {
   // this function will print body of packing function
@@ -853,7 +877,9 @@ void CiMainGenerator::PrintPackCommonText(const std::string& arrtxt, const CiExp
       continue;
     }
 
-    fwriter.Append("  %s[%d] |= (uint8_t) ( %s );", arrtxt.c_str(), i, sgs->to_bytes[i].c_str());
+    // bits of the signals must not keep the initial value of the byte
+    fwriter.Append("  %s[%d] = (uint8_t) ((%s[%d] & (0x%02XU)) | ( %s ));", arrtxt.c_str(), i,
+      arrtxt.c_str(), i, UnusedBits(sgs->msg, i), sgs->to_bytes[i].c_str());
   }
 
   fwriter.Append("");
-- 
2.43.0


From 6f3f80839a1131eda0a0b37f641bb2bf0e0989ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 28/34] fix: keep signals whose unit contains a colon between
 spaces

---
 src/parser/dbclineparser.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 56f6368..d512f69 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -170,21 +170,21 @@ bool DbcLineParser::IsSignalLine(const std::string& line)
 
 bool DbcLineParser::ParseSignalLine(SignalDescriptor_t* sig, const std::string& line)
 {
-  // split line in two parts
-  auto halfs = resplit(line, kRegSigSplit1, -1);
+  // split line in two parts by the first delimiter (the unit text may have one too)
+  std::smatch delim;
 
-  if (halfs.size() < 2)
+  if (!std::regex_search(line, delim, std::regex(kRegSigSplit1)))
   {
     return false;
   }
 
   // split tail
-  auto tailpart = resplit(halfs[1], kregSigSplit2, -1);
+  auto tailpart = resplit(delim.suffix().str(), kregSigSplit2, -1);
 
   // split middle part on dedicated values
   auto valpart = resplit(trim(tailpart[0]), kRegSigReceivers, -1);
 
-  halfs = resplit(halfs[0], kRegValTable, 0);
+  auto halfs = resplit(delim.prefix().str(), kRegValTable, 0);
 
   if (halfs.size() >= 2)
   {
-- 
2.43.0


From b1a0ebfd662f8fe5de1a57e3c458cc4fee5bfbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:50 +0000
Subject: [PATCH 29/34] fix: print integer factors and offsets beyond 31 bits
 in field comments

---
 src/codegen/c-main-generator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codegen/c-main-generator.cpp b/src/codegen/c-main-generator.cpp
index 397ff14..ebac32a 100644
--- a/src/codegen/c-main-generator.cpp
+++ b/src/codegen/c-main-generator.cpp
@@ -630,14 +630,14 @@ void CiMainGenerator::WriteSigStructField(const SignalDescriptor_t& sig, bool bi
     {
       infocmnt = IndentedString(offset, infocmnt);
       offset += 27;
-      infocmnt += StrPrint(" Offset= %d", (int)sig.Offset);
+      infocmnt += StrPrint(" Offset= %lld", (long long)sig.Offset);
     }
 
     if (sig.Factor != 1)
     {
       infocmnt = IndentedString(offset, infocmnt);
       offset += 24;
-      infocmnt += StrPrint(" Factor= %d", (int)sig.Factor);
+      infocmnt += StrPrint(" Factor= %lld", (long long)sig.Factor);
     }
   }
 
-- 
2.43.0


From 91c945547c20f82bbc091a7c2a34109a22a22ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:31 +0000
Subject: [PATCH 30/34] fix: inner lines of comments must not define messages,
 signals or attributes

---
 src/parser/dbclineparser.cpp |  7 +++++++
 src/parser/dbclineparser.h   |  4 ++++
 src/parser/dbcscanner.cpp    | 23 +++++++++++++++++++++++
 3 files changed, 34 insertions(+)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index d512f69..758b51c 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -447,6 +447,13 @@ bool DbcLineParser::ParseCommentLine(Comment_t* cm, const std::string& line)
   return ret;
 }
 
+bool DbcLineParser::IsCommentOpened() const
+{
+  const size_t quote = commentline.find('"');
+
+  return quote != std::string::npos && commentline.find('"', quote + 1) == std::string::npos;
+}
+
 bool DbcLineParser::ParseAttributeLine(AttributeDescriptor_t* attr, const std::string& line)
 {
   bool ret = false;
diff --git a/src/parser/dbclineparser.h b/src/parser/dbclineparser.h
index 9b0c025..0d484c8 100644
--- a/src/parser/dbclineparser.h
+++ b/src/parser/dbclineparser.h
@@ -64,6 +64,10 @@ class DbcLineParser {
   // and loads result to cm struct, return @true if parsed ok
   bool ParseCommentLine(Comment_t* cm, const std::string& line);
 
+  // checks if the text of the comment collected by @ParseCommentLine is
+  // not closed yet, so the next line belongs to the text
+  bool IsCommentOpened() const;
+
   // tries to parse value table string in line
   // saves result as comment text in @cm object, and as
   // pairs of items (definition / value) in @vtab
diff --git a/src/parser/dbcscanner.cpp b/src/parser/dbcscanner.cpp
index edf98ec..3d3dddc 100644
--- a/src/parser/dbcscanner.cpp
+++ b/src/parser/dbcscanner.cpp
@@ -80,10 +80,25 @@ void DbcScanner::ParseMessageInfo(istream& readstrm)
 
   MessageDescriptor_t* pMsg = nullptr;
 
+  // tracks the comments to skip their inner lines
+  DbcLineParser comments;
+
+  Comment_t cmmnt;
+
   while (std::getline(readstrm, sline))
   {
     sline = str_trim(sline);
 
+    const bool comment_text = comments.IsCommentOpened();
+
+    comments.ParseCommentLine(&cmmnt, sline);
+
+    if (comment_text)
+    {
+      // the text of the comment can not define anything
+      continue;
+    }
+
     FindVersion(sline);
 
     // New message line has been found
@@ -173,6 +188,8 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
   {
     sline = str_trim(sline);
 
+    const bool comment_text = lparser.IsCommentOpened();
+
     if (lparser.ParseCommentLine(&cmmnt, sline))
     {
       // update message comment field
@@ -240,6 +257,12 @@ void DbcScanner::ParseOtherInfo(istream& readstrm)
       }
     }
 
+    if (comment_text)
+    {
+      // the text of the comment can not define anything
+      continue;
+    }
+
     if (lparser.ParseValTableLine(&cmmnt, sline, vals))
     {
       // update message comment field
-- 
2.43.0


From 0266a2826e055440c6a96b60b259456bded17be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:56 +0000
Subject: [PATCH 31/34] fix: keep blank lines inside of comments as they are

---
 src/helpers/formatter.cpp    | 7 -------
 src/parser/dbclineparser.cpp | 5 +++--
 2 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/helpers/formatter.cpp b/src/helpers/formatter.cpp
index ff1d318..5a7e2ea 100644
--- a/src/helpers/formatter.cpp
+++ b/src/helpers/formatter.cpp
@@ -78,13 +78,6 @@ std::string str_trim(std::string s)
 {
   size_t passed = 0;
 
-  if (s.empty())
-  {
-    return s + '\n';
-  }
-
-  passed = 0;
-
   while (passed < s.size())
   {
     if (s[s.size() - passed - 1] > ' ')
diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 758b51c..285e719 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -374,7 +374,8 @@ bool DbcLineParser::ParseCommentLine(Comment_t* cm, const std::string& line)
 {
   bool ret = false;
 
-  if (line.size() > 0)
+  // an empty line is a part of the comment text
+  if (line.size() > 0 || IsCommentOpened())
   {
     if (line.find("CM_") == 0)
     {
@@ -388,7 +389,7 @@ bool DbcLineParser::ParseCommentLine(Comment_t* cm, const std::string& line)
     }
 
     // check if the current line last
-    if (commentline.size() > 0 && line.back() == ';')
+    if (commentline.size() > 0 && commentline.back() == ';')
     {
       // set invalid target type as default return value
       cm->ca_target = CommentTarget::Undefined;
-- 
2.43.0


From dab95ef97056ce76b67ce4693044272476630ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:56 +0000
Subject: [PATCH 32/34] fix: line ends separate the items of value tables and
 attributes

---
 src/parser/dbclineparser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 285e719..67e263b 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -468,7 +468,8 @@ bool DbcLineParser::ParseAttributeLine(AttributeDescriptor_t* attr, const std::s
     }
     else if (attribline.size() > 0)
     {
-      attribline += line;
+      // a line end separates items as a space does
+      attribline += ' ' + line;
     }
 
     // check if the current line is last
@@ -507,7 +508,8 @@ bool DbcLineParser::ParseValTableLine(Comment_t* comm, const std::string& line,
     }
     else if (valueline.size() > 0)
     {
-      valueline += line;
+      // a line end separates items as a space does
+      valueline += ' ' + line;
     }
 
     // check if the current line is last
-- 
2.43.0


From 60f51153daa1aa2e196883269a734fc356950185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:56 +0000
Subject: [PATCH 33/34] fix: comment lines starting with CM_ do not start
 another comment

---
 src/parser/dbclineparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/dbclineparser.cpp b/src/parser/dbclineparser.cpp
index 67e263b..387edd0 100644
--- a/src/parser/dbclineparser.cpp
+++ b/src/parser/dbclineparser.cpp
@@ -377,7 +377,7 @@ bool DbcLineParser::ParseCommentLine(Comment_t* cm, const std::string& line)
   // an empty line is a part of the comment text
   if (line.size() > 0 || IsCommentOpened())
   {
-    if (line.find("CM_") == 0)
+    if (line.find("CM_") == 0 && !IsCommentOpened())
     {
       commentline.clear();
       commentline = line;
-- 
2.43.0


From 8c6ef813de14a588e64221f6157e4ab21a9ead4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:56 +0000
Subject: [PATCH 34/34] fix: keep bytes above 127 at the end of comment lines

---
 src/helpers/formatter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/helpers/formatter.cpp b/src/helpers/formatter.cpp
index 5a7e2ea..bdd7d01 100644
--- a/src/helpers/formatter.cpp
+++ b/src/helpers/formatter.cpp
@@ -80,7 +80,8 @@ std::string str_trim(std::string s)
 
   while (passed < s.size())
   {
-    if (s[s.size() - passed - 1] > ' ')
+    // bytes above 127 are printable too
+    if (static_cast<unsigned char>(s[s.size() - passed - 1]) > ' ')
     {
       break;
     }
-- 
2.43.0

